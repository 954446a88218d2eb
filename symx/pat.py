"""Output patterns shared by the symbolic and the concrete oracle."""
from __future__ import annotations

from html.entities import html5

from . import expr as X
from .expr import In, Not
from .strs import (talt, tit, trep, trepalt, tws, tany, toks_of, tch, norm, match_toks, Ch, It, Rep,
                   Num, Opq, Inexact)

META_TEXT = "&<>"
META_ATTR = "&<>\"'\r\n"


def _refs(ch):
    o = ord(ch)
    out = {"&" + n for n, v in html5.items() if v == ch and n.endswith(";")}
    for z in ("", "0", "00", "000", "0000"):
        out.add("&#%s%d;" % (z, o))
        for x in "xX":
            for f in ("%x", "%X"):
                out.add("&#" + x + z + (f % o) + ";")
    return tuple(sorted(out))


REFS = {c: _refs(c) for c in META_ATTR}
# the order puts the usual spelling first
for _c, _r in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"),
               ("'", "&apos;"), ("\r", "&#13;"), ("\n", "&#10;")):
    REFS[_c] = (_r,) + tuple(x for x in REFS[_c] if x != _r)


def enc_char(ch, meta):
    if ch in meta:
        return talt([(True, (r,)) for r in REFS[ch]], "ref(%s)" % ch)
    return ch


def enc_expr(e, meta):
    alts = []
    cs = ()
    for c in meta:
        here = In(e, ((ord(c), ord(c)),))
        cs = X.cs_or(cs, ((ord(c), ord(c)),))
        if here is False:
            continue
        for r in REFS[c]:
            alts.append((here, (r,)))
    rest = Not(In(e, cs))
    if rest is True:
        return tch(e)
    if rest is not False:
        alts.append((rest, (tch(e),)))
    return talt(alts, "enc")


def enc(x, meta=META_TEXT):
    """Pattern: x with every character of meta replaced by some reference decoding to it
    and every other character unchanged."""
    return _enc(toks_of(x), meta)


def _enc(ts, meta):
    out = []
    for t in ts:
        if type(t) is str:
            out.extend(enc_char(c, meta) for c in t)
        elif type(t) is Ch:
            out.append(enc_expr(t.e, meta))
        elif type(t) is It:
            out.extend(tit(t.c, _enc(t.a, meta), _enc(t.b, meta)))
        elif type(t) is Rep:
            if any(c in meta for c in t.u):
                if len(t.u) != 1:
                    raise ValueError("repetition of several markup characters")
                out.append(trepalt(REFS[t.u], t.n))
            else:
                out.append(t)
        else:
            out.append(t)
    return tuple(out)


def attr(x):
    return enc(x, META_ATTR)


def lit(x):
    return toks_of(x)


LAYOUT = X.cs_of(" \t\r\n\f")


def ws(cs=LAYOUT):
    return (tws(cs),)


def anything():
    return (tany(),)


def alt(*choices):
    """One of several pattern sequences."""
    return (talt([(True, tuple(c)) for c in choices]),)


def seq(*pieces):
    out = []
    for p in pieces:
        out.extend(p if isinstance(p, tuple) else toks_of(p))
    return norm(out)
