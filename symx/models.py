"""Models of C-implemented library functions for symbolic arguments."""
from __future__ import annotations

import json

from . import expr as X
from .expr import E, And, Or, Not, In, Eq, Le
from . import engine
from .strs import (SymStr, SymInt, SymBool, SymBytes, mk, toks_of, map_toks, tch, tit,
                   topq, tnum, run, flatten, Ch, Rep, Opq, concretize, is_sym, cin, wrapi)

HEX = X.cs_of("0123456789abcdef")
_hexinv = {}


def hexdig(d, upper=False):
    e = X.iite(Le(d, 9), X.add(d, 48), X.add(d, 55 if upper else 87))
    if isinstance(e, E):
        _hexinv[e.id] = (e, d)
    return tch(e)


def hex_toks(e, width, upper=False):
    return tuple(hexdig(X.mod(X.div(e, 16 ** k), 16), upper) for k in range(width - 1, -1, -1))


def has_sym(x, depth=6):
    if is_sym(x):
        return True
    if depth and isinstance(x, dict):
        return any(has_sym(k, 0) or has_sym(v, depth - 1) for k, v in x.items())
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth - 1) for v in x)
    return False


# ---- json ------------------------------------------------------------------------------
_SHORT = {34: '\\"', 92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 12: "\\f", 8: "\\b"}


def json_str_toks(s, ensure_ascii=True):
    def f_const(ch):
        t = json.dumps(ch, ensure_ascii=ensure_ascii)
        return (t[1:-1],)

    def f_ch(e):
        r = run()
        if ensure_ascii:
            plain = X.cs_minus(((32, 126),), ((34, 34), (92, 92)))
        else:
            plain = X.cs_minus(((32, 0x10FFFF),), ((34, 34), (92, 92)))
        rest = ("\\u",) + hex_toks(e, 4)
        if ensure_ascii:
            v = X.add(e, -0x10000)
            hi = X.add(0xD800, X.div(v, 1024))
            lo = X.add(0xDC00, X.mod(v, 1024))
            astral = ("\\u",) + hex_toks(hi, 4) + ("\\u",) + hex_toks(lo, 4)
            rest = tit(In(e, ((0x10000, 0x10FFFF),)), astral, rest)
        cur = rest
        for o, t in _SHORT.items():
            cur = tit(In(e, ((o, o),)), (t,), cur)
        return tit(In(e, plain), (tch(e),), cur)
    return ('"',) + map_toks(toks_of(s), f_const, f_ch) + ('"',)


def dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
          cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if not has_sym(obj) and not is_sym(indent):
        return json.dumps(obj, skipkeys=skipkeys, ensure_ascii=ensure_ascii,
                          check_circular=check_circular, allow_nan=allow_nan, cls=cls,
                          indent=indent, separators=separators, default=default,
                          sort_keys=sort_keys, **kw)
    if cls is not None or kw:
        raise engine.SymxError("json.dumps with a custom encoder")
    if separators is not None:
        isep, ksep = separators
    else:
        isep, ksep = (", " if indent is None else ","), ": "
    if isinstance(indent, bool):
        indent = int(indent)
    out = []

    def nl(level):
        if indent is None:
            return
        if isinstance(indent, str):
            unit = toks_of(indent)
            out.append("\n")
            out.extend(unit * level)
            return
        if isinstance(indent, SymInt):
            from .strs import str_mul
            out.append("\n")
            for _ in range(level):
                out.extend(toks_of(str_mul(" ", indent)))
            return
        out.append("\n" + " " * (indent * level))

    def go(o, level):
        if isinstance(o, str):
            out.extend(json_str_toks(o, ensure_ascii))
        elif o is None:
            out.append("null")
        elif isinstance(o, (bool, SymBool)):
            out.append("true" if o else "false")
        elif isinstance(o, SymInt):
            out.append(tnum(o.e))
        elif isinstance(o, (int, float)):
            out.append(json.dumps(o))
        elif isinstance(o, (list, tuple)):
            if not o:
                out.append("[]")
                return
            out.append("[")
            for i, v in enumerate(o):
                if i:
                    out.append(isep)
                nl(level + 1)
                go(v, level + 1)
            nl(level)
            out.append("]")
        elif isinstance(o, dict):
            if not o:
                out.append("{}")
                return
            out.append("{")
            items = list(o.items())
            if sort_keys:
                items.sort(key=lambda kv: kv[0])
            first = True
            for k, v in items:
                if not isinstance(k, str):
                    if k is True or k is False or k is None:
                        k = {True: "true", False: "false", None: "null"}[k]
                    elif isinstance(k, (int, float)):
                        k = str(k)
                    elif skipkeys:
                        continue
                    else:
                        raise TypeError("keys must be str, int, float, bool or None, not "
                                        + type(k).__name__)
                if not first:
                    out.append(isep)
                first = False
                nl(level + 1)
                out.extend(json_str_toks(k, ensure_ascii))
                out.append(ksep)
                go(v, level + 1)
            nl(level)
            out.append("}")
        elif default is not None:
            go(default(o), level)
        else:
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    go(obj, 0)
    return mk(tuple(out))


def unhex(cells):
    """Value of hex-digit cells (each already known to be a hex digit)."""
    ds = []
    r = run()
    for c in cells:
        if type(c) is str:
            ds.append(int(c, 16))
        else:
            inv = _hexinv.get(c.e.id)
            if inv is not None and inv[0] is c.e:
                ds.append(inv[1])
            else:
                e = c.e
                ds.append(X.iite(In(e, ((48, 57),)), X.add(e, -48),
                                 X.iite(In(e, ((97, 102),)), X.add(e, -87), X.add(e, -55))))
    # digits of one and the same number reassemble to it
    n = len(ds)
    base = None
    for k, d in enumerate(reversed(ds)):
        b = None
        if isinstance(d, E):
            x = d
            if x.op == "mod" and x.args[1] == 16:
                x = x.args[0]
            if k == 0:
                b = x
            elif isinstance(x, E) and x.op == "div" and x.args[1] == 16 ** k:
                b = x.args[0]
        if b is None:
            base = None
            break
        if base is None:
            base = b
        elif base is not b:
            base = None
            break
    if base is not None and isinstance(base, E):
        d = X.dom_of(base)
        rd = r.dom.get(base, d)
        if rd[0][0] >= 0 and rd[-1][1] < 16 ** n:
            return base
    v = 0
    for d in ds:
        v = X.add(X.mulc(v, 16), d)
    return v


class JSONParser:
    def __init__(self, s):
        self.c = flatten(s.toks, True)
        self.s = s
        self.i = 0
        self.r = run()

    def err(self, msg):
        raise json.JSONDecodeError(msg, "".join(str.__iter__(self.s)), min(self.i, len(self.c)))

    def isin(self, cs):
        if self.i >= len(self.c):
            return False
        return self.r.branch(cin(self.c[self.i], cs))

    def is_(self, ch):
        return self.isin(((ord(ch), ord(ch)),))

    def ws(self):
        cs = X.cs_of(" \t\n\r")
        while self.isin(cs):
            self.i += 1

    def lit(self, word, val):
        for ch in word:
            if not self.is_(ch):
                self.err("Expecting value")
            self.i += 1
        return val

    def value(self):
        if self.i >= len(self.c):
            self.err("Expecting value")
        if self.is_('"'):
            self.i += 1
            return self.string()
        if self.is_("{"):
            return self.obj()
        if self.is_("["):
            return self.arr()
        for w, v in (("null", None), ("true", True), ("false", False)):
            if self.is_(w[0]):
                return self.lit(w, v)
        return self.number()

    def number(self):
        start = self.i
        cs = X.cs_of("-+0123456789.eE")
        while self.isin(cs):
            self.i += 1
        if start == self.i:
            self.err("Expecting value")
        txt = mk(tuple(self.c[start:self.i]))
        txt = concretize(txt, "json number") if is_sym(txt) else txt
        return json.loads(txt)

    def string(self):
        out = []
        plain = X.cs_minus(((32, 0x10FFFF),), ((34, 34), (92, 92)))
        while True:
            if self.i >= len(self.c):
                self.err("Unterminated string starting at")
            c = self.c[self.i]
            if self.isin(plain):
                out.append(c)
                self.i += 1
            elif self.is_('"'):
                self.i += 1
                return mk(tuple(out))
            elif self.is_("\\"):
                self.i += 1
                if self.i >= len(self.c):
                    self.err("Unterminated string starting at")
                for ch, v in (('"', '"'), ("\\", "\\"), ("/", "/"), ("b", "\b"), ("f", "\f"),
                              ("n", "\n"), ("r", "\r"), ("t", "\t")):
                    if self.is_(ch):
                        out.append(v)
                        self.i += 1
                        break
                else:
                    if not self.is_("u"):
                        self.err("Invalid \\escape")
                    v = self.hex4()
                    if self.r.branch(In(v, ((0xD800, 0xDBFF),))) and self.i + 5 < len(
                            self.c) and self.is_("\\"):
                        save = self.i
                        self.i += 1
                        if self.is_("u"):
                            w = self.hex4()
                            if self.r.branch(In(w, ((0xDC00, 0xDFFF),))):
                                v = X.add(0x10000, X.mulc(X.add(v, -0xD800), 1024),
                                          X.add(w, -0xDC00))
                            else:
                                self.i = save
                        else:
                            self.i = save
                    out.append(tch(v))
            else:
                self.err("Invalid control character at")

    def hex4(self):
        # self.i is at the 'u'
        self.i += 1
        cells = self.c[self.i:self.i + 4]
        hx = X.cs_of("0123456789abcdefABCDEF")
        if len(cells) < 4:
            self.err("Invalid \\uXXXX escape")
        for c in cells:
            if not self.r.branch(cin(c, hx)):
                self.err("Invalid \\uXXXX escape")
        self.i += 4
        return unhex(cells)

    def obj(self):
        from .instr import sx
        self.i += 1
        res = {}
        self.ws()
        if self.is_("}"):
            self.i += 1
            return res
        while True:
            self.ws()
            if not self.is_('"'):
                self.err("Expecting property name enclosed in double quotes")
            self.i += 1
            k = self.string()
            self.ws()
            if not self.is_(":"):
                self.err("Expecting ':' delimiter")
            self.i += 1
            self.ws()
            v = self.value()
            sx.setitem(res, k, v)
            self.ws()
            if self.is_(","):
                self.i += 1
                continue
            if self.is_("}"):
                self.i += 1
                return res
            self.err("Expecting ',' delimiter")

    def arr(self):
        self.i += 1
        res = []
        self.ws()
        if self.is_("]"):
            self.i += 1
            return res
        while True:
            self.ws()
            res.append(self.value())
            self.ws()
            if self.is_(","):
                self.i += 1
                continue
            if self.is_("]"):
                self.i += 1
                return res
            self.err("Expecting ',' delimiter")

    def parse(self):
        self.ws()
        v = self.value()
        self.ws()
        if self.i < len(self.c):
            self.err("Extra data")
        return v


def loads(s, **kw):
    if not isinstance(s, SymStr):
        return json.loads(s, **kw)
    if kw:
        raise engine.SymxError("json.loads with options")
    return JSONParser(s).parse()


# ---- urllib.parse.quote ----------------------------------------------------------------------
_SAFE = X.cs_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def utf8_exprs(e, n):
    """UTF-8 bytes of code point e, n = encoded length."""
    if n == 1:
        return (e,)
    if n == 2:
        return (X.add(0xC0, X.div(e, 64)), X.add(0x80, X.mod(e, 64)))
    if n == 3:
        return (X.add(0xE0, X.div(e, 4096)), X.add(0x80, X.mod(X.div(e, 64), 64)),
                X.add(0x80, X.mod(e, 64)))
    return (X.add(0xF0, X.div(e, 262144)), X.add(0x80, X.mod(X.div(e, 4096), 64)),
            X.add(0x80, X.mod(X.div(e, 64), 64)), X.add(0x80, X.mod(e, 64)))


U1, U2, U3, U4 = ((0, 0x7F),), ((0x80, 0x7FF),), ((0x800, 0xFFFF),), ((0x10000, 0x10FFFF),)


def pct(e, n):
    out = []
    for b in utf8_exprs(e, n):
        out.append("%")
        out.append(hexdig(X.mod(X.div(b, 16), 16), True))
        out.append(hexdig(X.mod(b, 16), True))
    return tuple(out)


def quote(string, safe="/", encoding=None, errors=None):
    import urllib.parse as U
    if not isinstance(string, SymStr):
        return U.quote(string, safe, encoding, errors)
    if is_sym(safe):
        safe = concretize(safe, "quote safe set")
    if encoding not in (None, "utf-8"):
        raise engine.SymxError("quote encoding")
    if isinstance(safe, bytes):
        safe = safe.decode("latin-1")
    cs = X.cs_or(_SAFE, X.cs_of([c for c in safe if c.isascii()]))

    def f_ch(e):
        cur = pct(e, 1)
        for u, n in ((U2, 2), (U3, 3), (U4, 4)):
            cur = tit(In(e, u), pct(e, n), cur)
        return tit(In(e, cs), (tch(e),), cur)
    return mk(map_toks(string.toks, lambda ch: (U.quote(ch, safe),), f_ch))


def quote_plus(string, safe="", encoding=None, errors=None):
    s = quote(string, safe + " ", encoding, errors)
    return s.replace(" ", "+")


def unquote(string, *a, **k):
    import urllib.parse as U
    if not isinstance(string, SymStr):
        return U.unquote(string, *a, **k)
    if "%" not in string:
        return string
    return U.unquote(concretize(string, "unquote"), *a, **k)


# ---- hashing -----------------------------------------------------------------------------------
HEXCS = X.cs_of("0123456789abcdef")


class SymHash:
    def __init__(self, kind, toks):
        self.kind = kind
        self.name = kind
        self.toks = tuple(toks)

    def update(self, b):
        self.toks = self.toks + bytes_toks(b)

    def hexdigest(self):
        from .strs import OPQ_EVAL
        if all(type(t) is str for t in self.toks):
            return OPQ_EVAL[self.kind]("".join(self.toks))
        return mk((topq(self.kind, mk_norm(self.toks), HEXCS),))

    def digest(self):
        raise engine.SymxError("digest of a symbolic string")

    def copy(self):
        return SymHash(self.kind, self.toks)


def mk_norm(ts):
    from .strs import norm
    return norm(ts)


def bytes_toks(b):
    if isinstance(b, SymBytes):
        return b.toks
    return toks_of(b.decode("utf-8", "surrogatepass"))


def hasher(kind, native):
    def f(data=b"", **kw):
        if engine.CUR is not None:
            try:
                return SymHash(kind, bytes_toks(data))
            except UnicodeDecodeError:
                pass
        return native(data, **kw)
    return f
