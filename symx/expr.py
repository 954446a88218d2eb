"""Integer / boolean expressions over bounded integer variables.

Everything a symbolic value carries is made of these nodes.  Nodes are interned, folded
on construction, evaluated concretely (``ev``) and translated to z3 (``to_z3``).
Booleans are Python ``True`` / ``False`` or nodes with op in BOOL_OPS.
"""
from __future__ import annotations

INF = 10 ** 12

# ----------------------------------------------------------------------------------
# CharSet: sorted tuple of disjoint inclusive (lo, hi) intervals
# ----------------------------------------------------------------------------------


def cs_norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def cs_of(chars):
    return cs_norm([(ord(c), ord(c)) for c in chars])


def cs_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def cs_or(a, b):
    return cs_norm(list(a) + list(b))


def cs_not(a):
    out = []
    p = -INF
    for lo, hi in a:
        if p <= lo - 1:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= INF:
        out.append((p, INF))
    return tuple(out)


def cs_minus(a, b):
    return cs_and(a, cs_not(b))


def cs_has(a, x):
    import bisect
    i = bisect.bisect_right(a, (x, INF + 1)) - 1
    return i >= 0 and a[i][0] <= x <= a[i][1]


def cs_shift(a, k):
    return tuple((lo + k, hi + k) for lo, hi in a)


def cs_subset(a, b):
    return cs_and(a, b) == a


def cs_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def cs_pick(a, prefer=()):
    for p in prefer:
        if cs_has(a, p):
            return p
    # prefer something printable
    for lo, hi in a:
        if lo <= 120 <= hi:
            return 120
    for lo, hi in a:
        if hi >= 33:
            return max(lo, 33)
    return a[0][0]


UNICODE = ((0, 0xD7FF), (0xE000, 0x10FFFF))
ANYINT = ((-INF, INF),)

# ----------------------------------------------------------------------------------
# Nodes
# ----------------------------------------------------------------------------------
BOOL_OPS = frozenset(("in", "le0", "eq0", "and", "or", "not"))
_table = {}
_counter = [0]


class E:
    __slots__ = ("op", "args", "_vars", "_z3", "id", "dom", "_neg")

    def __repr__(self):
        return pp(self)

    def __bool__(self):
        raise TypeError("E used as Python bool: %s" % pp(self))

    @property
    def vars(self):
        v = self._vars
        if v is None:
            s = set()
            _collect(self, s)
            v = self._vars = frozenset(s)
        return v


def _collect(e, s):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, E):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "var":
                s.add(x.args[0])
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def _mk(op, args, dom=None):
    key = (op, args)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = op
        e.args = args
        e._vars = None
        e._z3 = None
        e._neg = None
        e.dom = dom
        _counter[0] += 1
        e.id = _counter[0]
        _table[key] = e
    return e


VARDOM = {}


def reset_table():
    _table.clear()
    VARDOM.clear()


def var(name, dom):
    e = _mk("var", (name,), dom)
    if e.dom != dom:
        raise ValueError("variable %s redeclared with another domain" % name)
    VARDOM[name] = e
    return e


def dom_of(e):
    """Over-approximation of the values of an int expression."""
    if isinstance(e, int):
        return ((e, e),)
    if e.dom is not None:
        return e.dom
    op = e.op
    if op == "lin":
        lo = hi = e.args[0]
        for a, k in e.args[1]:
            d = dom_of(a)
            x, y = d[0][0] * k, d[-1][1] * k
            lo += min(x, y)
            hi += max(x, y)
        if len(e.args[1]) == 1 and e.args[1][0][1] == 1:
            r = cs_shift(dom_of(e.args[1][0][0]), e.args[0])
        else:
            r = ((lo, hi),)
    elif op == "ite":
        r = cs_or(dom_of(e.args[1]), dom_of(e.args[2]))
    elif op == "mod":
        d = dom_of(e.args[0])
        r = ((0, e.args[1] - 1),)
        if d[0][0] >= 0 and d[-1][1] < e.args[1]:
            r = d
    elif op == "div":
        d = dom_of(e.args[0])
        r = ((d[0][0] // e.args[1], d[-1][1] // e.args[1]),)
    else:
        raise ValueError(op)
    e.dom = r
    return r


def is_int_expr(e):
    return isinstance(e, E) and e.op not in BOOL_OPS


# ---- linear arithmetic -----------------------------------------------------------


def _lin_parts(e):
    if isinstance(e, int):
        return int(e), ()
    if e.op == "lin":
        return e.args
    return 0, ((e, 1),)


def _mk_lin(c, d):
    terms = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda t: t[0].id))
    if not terms:
        return c
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return _mk("lin", (c, terms))


def add(*xs):
    c = 0
    d = {}
    for x in xs:
        cc, ts = _lin_parts(x)
        c += cc
        for a, k in ts:
            d[a] = d.get(a, 0) + k
    return _mk_lin(c, d)


def mulc(x, k):
    c, ts = _lin_parts(x)
    return _mk_lin(c * k, {a: kk * k for a, kk in ts})


def sub(a, b):
    return add(a, mulc(b, -1))


def div(a, k):
    if isinstance(a, int):
        return a // k
    if k == 1:
        return a
    d = dom_of(a)
    if d[0][0] // k == d[-1][1] // k:
        return d[0][0] // k
    return _mk("div", (a, k))


def mod(a, k):
    if isinstance(a, int):
        return a % k
    if k == 1:
        return 0
    d = dom_of(a)
    if d[0][0] >= 0 and d[-1][1] < k:
        return a
    return _mk("mod", (a, k))


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    return _mk("ite", (c, a, b))


# ---- booleans ----------------------------------------------------------------------


def In(e, cs):
    if not cs:
        return False
    if isinstance(e, int):
        return cs_has(cs, e)
    if e.op == "ite":
        c, a, b = e.args
        return Or(And(c, In(a, cs)), And(Not(c), In(b, cs)))
    if e.op == "lin" and len(e.args[1]) == 1:
        a, k = e.args[1][0]
        if k == 1:
            return In(a, cs_shift(cs, -e.args[0]))
        if k == -1:
            return In(a, cs_norm([(e.args[0] - hi, e.args[0] - lo) for lo, hi in cs]))
    d = dom_of(e)
    cs2 = cs_and(cs, d)
    if not cs2:
        return False
    if cs2 == d:
        return True
    return _mk("in", (e, cs2))


def Eq(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    if d.op == "lin" and len(d.args[1]) == 1:
        x, k = d.args[1][0]
        c = d.args[0]
        if c % k:
            return False
        return In(x, ((-c // k, -c // k),))
    if d.op != "lin":
        return In(d, ((0, 0),))
    # x - y == 0 : canonical sign, quick domain test
    c, ts = d.args
    if len(ts) == 2 and c == 0 and {ts[0][1], ts[1][1]} == {1, -1}:
        if not cs_and(dom_of(ts[0][0]), dom_of(ts[1][0])):
            return False
    if ts[0][1] < 0:
        d = mulc(d, -1)
    if not cs_has(dom_of(d), 0):
        return False
    return _mk("eq0", (d,))


def Le(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d <= 0
    dm = dom_of(d)
    if dm[-1][1] <= 0:
        return True
    if dm[0][0] > 0:
        return False
    if d.op == "lin" and len(d.args[1]) == 1:
        x, k = d.args[1][0]
        c = d.args[0]
        if k > 0:
            return In(x, ((-INF, (-c) // k),))
        kk = -k
        return In(x, ((-((-c) // kk), INF),))
    if d.op != "lin":
        return In(d, ((-INF, 0),))
    return _mk("le0", (d,))


def Lt(a, b):
    return Le(add(a, 1), b)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    n = x._neg
    if n is None:
        if x.op == "not":
            n = x.args[0]
        elif x.op == "in":
            n = In(x.args[0], cs_not(x.args[1]))
        elif x.op == "and":
            n = Or(*[Not(a) for a in x.args])
        elif x.op == "or":
            n = And(*[Not(a) for a in x.args])
        else:
            n = _mk("not", (x,))
        x._neg = n
        if isinstance(n, E) and n._neg is None:
            n._neg = x
    return n


def _flat(op, xs, out):
    for x in xs:
        if isinstance(x, E) and x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def And(*xs):
    xs = _flat("and", xs, [])
    ins = {}
    rest = {}
    order = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x.op == "in":
            e, cs = x.args
            if e in ins:
                ins[e] = cs_and(ins[e], cs)
                if not ins[e]:
                    return False
            else:
                ins[e] = cs
                order.append(("in", e))
        elif x not in rest:
            rest[x] = 1
            order.append(("r", x))
    for x in rest:
        n = x._neg
        if n is not None and n in rest:
            return False
    out = []
    for k, x in order:
        if k == "r":
            # simplify one level of disjunctions against the unary facts
            if x.op == "or" and ins:
                y = _or_under(x, ins)
                if y is False:
                    return False
                if y is True:
                    continue
                out.append(y)
            else:
                out.append(x)
        else:
            y = In(x, ins[x])
            if y is False:
                return False
            if y is not True:
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(sorted(set(out), key=lambda e: e.id)))


def _or_under(x, ins):
    """Drop the disjuncts of x contradicted by the unary facts ins (e -> charset)."""
    keep = []
    changed = False
    for d in x.args:
        atoms = d.args if d.op == "and" else (d,)
        dead = False
        for a in atoms:
            if a.op == "in" and a.args[0] in ins and not cs_and(a.args[1], ins[a.args[0]]):
                dead = True
                break
        if dead:
            changed = True
        else:
            if len(atoms) == 1 and d.op == "in" and d.args[0] in ins \
                    and cs_subset(ins[d.args[0]], d.args[1]):
                return True
            keep.append(d)
    if not changed:
        return x
    return Or(*keep)


def Or(*xs):
    xs = _flat("or", xs, [])
    ins = {}
    rest = {}
    order = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x.op == "in":
            e, cs = x.args
            if e in ins:
                ins[e] = cs_or(ins[e], cs)
            else:
                ins[e] = cs
                order.append(("in", e))
        elif x not in rest:
            rest[x] = 1
            order.append(("r", x))
    for x in rest:
        n = x._neg
        if n is not None and n in rest:
            return True
    out = []
    for k, x in order:
        if k == "r":
            out.append(x)
        else:
            y = In(x, ins[x])
            if y is True:
                return True
            if y is not False:
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(sorted(set(out), key=lambda e: e.id)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def BIte(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return Or(And(c, a), And(Not(c), b))


# ---- evaluation ----------------------------------------------------------------------


def ev(e, env, memo=None):
    if not isinstance(e, E):
        return e
    if memo is None:
        memo = {}
    return _ev(e, env, memo)


def _ev(e, env, memo):
    if not isinstance(e, E):
        return e
    op = e.op
    if op == "var":
        return env[e.args[0]]
    r = memo.get(e.id)
    if r is not None:
        return r
    if op == "in":
        r = cs_has(e.args[1], _ev(e.args[0], env, memo))
    elif op == "and":
        r = True
        for a in e.args:
            if not _ev(a, env, memo):
                r = False
                break
    elif op == "or":
        r = False
        for a in e.args:
            if _ev(a, env, memo):
                r = True
                break
    elif op == "not":
        r = not _ev(e.args[0], env, memo)
    elif op == "lin":
        r = e.args[0]
        for a, k in e.args[1]:
            r += k * _ev(a, env, memo)
    elif op == "eq0":
        r = _ev(e.args[0], env, memo) == 0
    elif op == "le0":
        r = _ev(e.args[0], env, memo) <= 0
    elif op == "ite":
        r = _ev(e.args[1] if _ev(e.args[0], env, memo) else e.args[2], env, memo)
    elif op == "div":
        r = _ev(e.args[0], env, memo) // e.args[1]
    elif op == "mod":
        r = _ev(e.args[0], env, memo) % e.args[1]
    else:
        raise ValueError(op)
    memo[e.id] = r
    return r


# ---- z3 ------------------------------------------------------------------------------
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


def to_z3(e):
    z3 = z3mod()
    if e is True or e is False:
        return z3.BoolVal(e)
    if isinstance(e, int):
        return z3.IntVal(e)
    if e._z3 is not None:
        return e._z3
    op, a = e.op, e.args
    if op == "var":
        r = z3.Int(a[0])
    elif op == "in":
        x = to_z3(a[0])
        d = dom_of(a[0])
        parts = []
        for lo, hi in a[1]:
            if lo == hi:
                parts.append(x == lo)
            elif lo <= d[0][0]:
                parts.append(x <= hi)
            elif hi >= d[-1][1]:
                parts.append(x >= lo)
            else:
                parts.append(z3.And(x >= lo, x <= hi))
        r = parts[0] if len(parts) == 1 else z3.Or(*parts)
    elif op == "and":
        r = z3.And(*[to_z3(x) for x in a])
    elif op == "or":
        r = z3.Or(*[to_z3(x) for x in a])
    elif op == "not":
        r = z3.Not(to_z3(a[0]))
    elif op == "lin":
        ts = [to_z3(x) if k == 1 else k * to_z3(x) for x, k in a[1]]
        if a[0]:
            ts.append(z3.IntVal(a[0]))
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    elif op == "eq0":
        r = to_z3(a[0]) == 0
    elif op == "le0":
        r = to_z3(a[0]) <= 0
    elif op == "ite":
        r = z3.If(to_z3(a[0]), to_z3(a[1]), to_z3(a[2]))
    elif op == "div":
        r = to_z3(a[0]) / a[1]
    elif op == "mod":
        r = to_z3(a[0]) % a[1]
    else:
        raise ValueError(op)
    e._z3 = r
    return r


def dom_z3(v):
    """Domain constraint of a variable node."""
    z3 = z3mod()
    x = to_z3(v)
    parts = []
    for lo, hi in v.dom:
        if lo == hi:
            parts.append(x == lo)
        else:
            parts.append(z3.And(x >= lo, x <= hi))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def pp(e):
    if not isinstance(e, E):
        return repr(e)
    op, a = e.op, e.args
    if op == "var":
        return a[0]
    if op == "in":
        return "%s in %s" % (pp(a[0]), cs_pp(a[1]))
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(pp(x) for x in a) + ")"
    if op == "not":
        return "!(%s)" % pp(a[0])
    if op == "lin":
        return "+".join(["%d" % a[0]] + ["%d*%s" % (k, pp(x)) for x, k in a[1]])
    if op == "eq0":
        return "(%s == 0)" % pp(a[0])
    if op == "le0":
        return "(%s <= 0)" % pp(a[0])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(pp(x) for x in a)
    return "%s(%s)" % (op, ", ".join(pp(x) for x in a))


def cs_pp(cs):
    if len(cs) > 6:
        return "{%d..%d,#%d}" % (cs[0][0], cs[-1][1], cs_size(cs))
    return "{" + ",".join(str(a) if a == b else "%s..%s" % (
        a if a > -INF else "", b if b < INF else "") for a, b in cs) + "}"
