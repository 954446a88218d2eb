"""Loading the source under test with hooks, and the hooks themselves."""
from __future__ import annotations

import ast
import builtins
import collections
import functools
import hashlib
import importlib
import importlib.abc
import importlib.util
import io
import json
import operator
import os
import posixpath
import random
import re
import sys
import time
import types
import typing
import urllib.parse
import uuid
import zlib

from . import engine
from . import expr as X
from . import models
from . import rex
from . import strs
from .expr import E, And, Or, Not, In, Eq
from .strs import (SymStr, SymInt, SymBool, SymBytes, mk, toks_of, is_sym, wrapb, wrapi,
                   concretize, plain, run, eq_expr, Ch)

# ==================================================================================
# AST rewriting
# ==================================================================================


def _n(name):
    return ast.Name("__sx__", ast.Load())


def _sx(meth, *args):
    return ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), meth, ast.Load()),
                    list(args), [])


NOHOOK_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}
_BIN = {ast.Mod: "mod", ast.BitOr: "bitor", ast.Sub: "sub_", ast.BitAnd: "bitand",
        ast.BitXor: "bitxor"}
_AUG = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.Mod: "imod",
        ast.BitOr: "ior", ast.BitAnd: "iand", ast.FloorDiv: "ifloordiv",
        ast.Div: "itruediv", ast.BitXor: "ixor", ast.Pow: "ipow",
        ast.LShift: "ilshift", ast.RShift: "irshift", ast.MatMult: "imatmul"}


class Rewriter(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        # annotations and decorators stay untouched
        ann = node.returns
        node.returns = None
        args = node.args
        saved = [(a, a.annotation) for a in ast.walk(args) if isinstance(a, ast.arg)]
        for a, _ in saved:
            a.annotation = None
        decs = [_sx("deco", self.visit(d)) for d in node.decorator_list]
        for d in decs:
            ast.copy_location(d, node)
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decs
        node.returns = ann
        for a, x in saved:
            a.annotation = x
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        out = []
        for b in node.body:
            out.extend(b if isinstance(b, list) else [b])
        node.body = out
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOHOOK_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        new = ast.Call(ast.Attribute(ast.Name("__sx__", ast.Load()), "call", ast.Load()),
                       [node.func] + node.args, node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            # a < b < c  ->  evaluate natively (rich comparisons fork through __bool__)
            if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
                vals = [node.left] + node.comparators
                tests = []
                for i, o in enumerate(node.ops):
                    tests.append(ast.Compare(vals[i], [o], [vals[i + 1]]))
                # operands are re-evaluated; only safe for simple operands
                if all(isinstance(v, (ast.Name, ast.Constant)) for v in vals[1:-1]):
                    return ast.copy_location(ast.BoolOp(ast.And(), [
                        self._cmp(t) for t in tests]), node)
            return node
        return self._cmp(node)

    def _cmp(self, node):
        op = node.ops[0]
        m = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in",
             ast.Eq: "eq", ast.NotEq: "ne"}.get(type(op))
        if m is None:
            return node
        return ast.copy_location(_sx(m, node.left, node.comparators[0]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        m = _BIN.get(type(node.op))
        if m is None:
            return node
        if m == "sub_" and isinstance(node.right, ast.Constant):
            return node
        return ast.copy_location(_sx(m, node.left, node.right), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None \
                    else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_sx("fstr", *parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_sx("getitem", node.value, self._idx(node.slice)), node)
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()),
                            [s.lower or none, s.upper or none, s.step or none], [])
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # Python evaluates the value first, then object and index
            return ast.copy_location(ast.Expr(_sx(
                "setitem_v", node.value, t.value, self._idx(t.slice))), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript) and type(node.op) in _AUG:
            t = node.target
            return ast.copy_location(ast.Expr(_sx(
                "augitem", t.value, self._idx(t.slice), ast.Constant(_AUG[type(node.op)]),
                node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_sx(
                "delitem", t.value, self._idx(t.slice))), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(_sx("mkdict", ast.Tuple(items, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()),
                               node.generators)
        return ast.copy_location(_sx("mkdict", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_sx("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return ast.copy_location(_sx("mkset", gen), node)


_code_cache = {}


def compile_instrumented(src, filename):
    key = (filename, src)
    c = _code_cache.get(key)
    if c is None:
        tree = ast.parse(src, filename)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        c = _code_cache[key] = compile(tree, filename, "exec", dont_inherit=True)
    return c


# ==================================================================================
# hooks
# ==================================================================================

SIMPLE_SYM = (SymStr, SymInt, SymBool, SymBytes)


def symkeys(d):
    for k in d:
        if isinstance(k, SIMPLE_SYM):
            return True
        if type(k) is tuple and any(isinstance(x, SIMPLE_SYM) for x in k):
            return True
    return False


def key_eq(a, b):
    """Fork on the equality of two hash keys."""
    if a is b:
        return True
    return bool(a == b)


def presolve(d, key):
    """Make a native hash operation on d with key agree with symbolic equality."""
    sk = isinstance(key, SIMPLE_SYM) or (type(key) is tuple and any(
        isinstance(x, SIMPLE_SYM) for x in key))
    if not sk and not symkeys(d):
        return
    for k in list(d):
        if (sk or isinstance(k, SIMPLE_SYM) or type(k) is tuple) and type_comp(k, key):
            if key_eq(k, key):
                return


def type_comp(a, b):
    return isinstance(a, str) == isinstance(b, str)


class SxSet(set):
    """A set whose iteration order is not Python's business but an oracle's."""

    def __iter__(self):
        items = list(set.__iter__(self))
        o = sx.set_order
        if o is not None and len(items) > 1:
            return iter(o(items))
        return iter(items)

    def copy(self):
        return SxSet(set.copy(self))

    def pop(self):
        it = next(iter(self))
        self.remove(it)
        return it

    def __or__(self, o):
        return set_op(self, o, "__or__")

    def __and__(self, o):
        return set_op(self, o, "__and__")

    def __sub__(self, o):
        return set_op(self, o, "__sub__")

    def __xor__(self, o):
        return set_op(self, o, "__xor__")

    def __ror__(self, o):
        return set_op(o, self, "__or__")

    def __rand__(self, o):
        return set_op(o, self, "__and__")

    def __rsub__(self, o):
        return set_op(o, self, "__sub__")

    def __rxor__(self, o):
        return set_op(o, self, "__xor__")

    def _inplace(self, o, op):
        r = set_op(self, o, op)
        if r is NotImplemented:
            return r
        self.clear()
        set.update(self, set.__iter__(r))
        return self

    def __ior__(self, o):
        return self._inplace(o, "__or__")

    def __iand__(self, o):
        return self._inplace(o, "__and__")

    def __isub__(self, o):
        return self._inplace(o, "__sub__")

    def __ixor__(self, o):
        return self._inplace(o, "__xor__")


SETLIKE = (set, frozenset, type({}.keys()), type({}.items()))


def set_op(a, b, op):
    if not isinstance(a, SETLIKE) or not isinstance(b, SETLIKE):
        return NotImplemented
    def raw(x):
        return list(set.__iter__(x)) if isinstance(x, set) else \
            list(frozenset.__iter__(x)) if isinstance(x, frozenset) else list(x)
    la, lb = raw(a), raw(b)
    for x in lb:
        presolve(la, x)
    r = getattr(set, op)(set(la), set(lb))
    return FrozenSx(r) if isinstance(a, frozenset) else SxSet(r)


class FrozenSx(frozenset):
    def __iter__(self):
        items = list(frozenset.__iter__(self))
        o = sx.set_order
        if o is not None and len(items) > 1:
            return iter(o(items))
        return iter(items)


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with symbolic key equality."""
    if callable(maxsize):
        return lru_cache()(maxsize)

    def deco(f):
        entries = []
        stat = [0, 0]

        def same(x, y):
            if typed and type(x) is not type(y):
                return False
            if x is y:
                return True
            if isinstance(x, SIMPLE_SYM) or isinstance(y, SIMPLE_SYM):
                return bool(x == y)
            return hash(x) == hash(y) and bool(x == y)

        @functools.wraps(f)
        def g(*a, **k):
            for x in a:
                hash(x)
            for x in k.values():
                hash(x)
            fast = len(a) == 1 and not k and not typed and type(a[0]) in (int, str, SymStr)
            for a2, k2, v, fast2 in entries:
                if fast == fast2 and len(a) == len(a2) and list(k) == list(k2) and all(map(same, a, a2)) \
                        and all(same(k[n], k2[n]) for n in k):
                    stat[0] += 1
                    return v
            v = f(*a, **k)
            stat[1] += 1
            entries.append((a, k, v, fast))
            if maxsize is not None and len(entries) > maxsize:
                del entries[0]
            return v
        g.cache_info = lambda: functools._CacheInfo(stat[0], stat[1], maxsize, len(entries))
        g.cache_clear = lambda: entries.clear()
        return g
    return deco


def _deep_pin(x, why, depth=3):
    if is_sym(x):
        return concretize(x, why)
    if depth:
        if type(x) is list:
            return [_deep_pin(v, why, depth - 1) for v in x]
        if type(x) is tuple:
            return tuple(_deep_pin(v, why, depth - 1) for v in x)
        if type(x) is dict:
            return {_deep_pin(k, why, 0): _deep_pin(v, why, depth - 1) for k, v in x.items()}
    return x


STD_OK_MODULES = {"typing", "copy", "collections", "posixpath", "genericpath", "functools",
                  "contextlib", "abc", "types", "html", "symx", "itertools", "operator",
                  "_collections_abc", "dataclasses", "warnings", "enum"}
FS_PATHFUNCS = {"exists", "lexists", "isfile", "isdir", "islink", "ismount", "getsize", "getmtime",
                "getatime", "getctime", "samefile", "realpath", "abspath"}
FS_MODULES = {"os", "shutil", "pathlib", "tempfile", "posix", "_io", "io", "stat"}


class Hooks:
    """The object bound to ``__sx__`` in instrumented modules."""

    def __init__(self):
        self.set_order = None       # oracle for set iteration order
        self.fs = None              # file-system recorder
        self.encoded = set()
        self.B = {}
        self._install()

    # ---- statement-level hooks ----
    def deco(self, d):
        """A decorator about to be applied."""
        try:
            return self.B.get(d, d) if d in (functools.lru_cache, functools.cache) else d
        except TypeError:
            return d

    def is_(self, a, b):
        if isinstance(a, SymBool) and isinstance(b, bool):
            return wrapb(a.e if b else Not(a.e))
        if isinstance(b, SymBool) and isinstance(a, bool):
            return wrapb(b.e if a else Not(b.e))
        if isinstance(a, SymBool) and isinstance(b, SymBool):
            return wrapb(X.Iff(a.e, b.e))
        if isinstance(a, SymStr) and isinstance(b, str):
            # interning makes identity of equal strings unpredictable; identity of the
            # same object is certain
            return a is b or (len(toks_of(b)) == 0 and bool(a == b))
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        if isinstance(r, SymBool):
            return wrapb(Not(r.e))
        return not r

    def eq(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            self._dict_eq(a, b)
        elif isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            self._dict_eq(a, b)
        return a == b

    def ne(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            self._dict_eq(a, b)
        elif isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            self._dict_eq(a, b)
        return a != b

    def _dict_eq(self, a, b):
        if len(a) != len(b) or not (symkeys(a) or symkeys(b)):
            return
        for k in list(a):
            presolve(b, k)

    def in_(self, x, c):
        if isinstance(x, SIMPLE_SYM) or (type(x) is tuple and any(
                isinstance(y, SIMPLE_SYM) for y in x)) or is_container_sym(c):
            return self._in(x, c)
        return x in c

    def not_in(self, x, c):
        if isinstance(x, SIMPLE_SYM) or (type(x) is tuple and any(
                isinstance(y, SIMPLE_SYM) for y in x)) or is_container_sym(c):
            r = self._in(x, c)
            if isinstance(r, SymBool):
                return wrapb(Not(r.e))
            return not r
        return x not in c

    def _in(self, x, c):
        if isinstance(c, SymStr):
            return c.sx_contains(x)
        if isinstance(c, str) and isinstance(x, SymStr):
            return lift(c).sx_contains(x)
        if isinstance(c, (dict, set, frozenset, type({}.keys()))):
            if isinstance(x, str) and all(isinstance(k, str) for k in c):
                conds = []
                for k in list(c):
                    e = eq_expr(x, k) if isinstance(x, SymStr) or isinstance(k, SymStr) \
                        else x == k
                    if e is None:
                        break
                    conds.append(e)
                else:
                    r = wrapb(Or(*conds))
                    if isinstance(r, SymBool):
                        return r
                    return r
            presolve(c, x)
            return x in c
        if isinstance(c, (list, tuple)) and isinstance(x, str) and all(
                k is None or isinstance(k, str) for k in c):
            conds = []
            for k in c:
                if k is None:
                    continue
                e = eq_expr(x, k) if isinstance(x, SymStr) or isinstance(k, SymStr) \
                    else str.__eq__(x, k)
                if e is None:
                    return x in c
                conds.append(e)
            return wrapb(Or(*conds))
        if isinstance(c, (list, tuple)) and isinstance(x, SymBool):
            for k in c:
                if k is x:
                    return True
                if isinstance(k, (bool, SymBool)) and bool(x == k):
                    return True
                if not isinstance(k, (bool, SymBool)) and isinstance(k, int) \
                        and int(bool(x)) == k:
                    return True
            return False
        return x in c

    def mod(self, a, b):
        if isinstance(a, str) and (is_sym(a) or models.has_sym(b, 2)
                                   or self._has_sym_str_obj(b)):
            return strs.percent(a, b)
        return a % b

    def _has_sym_str_obj(self, b):
        return isinstance(b, tuple) and any(not isinstance(x, (str, int, float)) for x in b)

    def sub_(self, a, b):
        if isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
            return set_op(a, b, "__sub__")
        return a - b

    def bitand(self, a, b):
        if isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
            return set_op(a, b, "__and__")
        return a & b

    def bitxor(self, a, b):
        if isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
            return set_op(a, b, "__xor__")
        return a ^ b

    def bitor(self, a, b):
        if isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
            return set_op(a, b, "__or__")
        if isinstance(a, dict) and isinstance(b, dict) and (symkeys(a) or symkeys(b)):
            r = type(a)(a) if type(a) is dict else a.copy()
            self.dict_update(r, b)
            return r
        return a | b

    def fstr(self, *parts):
        toks = []
        for p in parts:
            if type(p) is str:
                toks.append(p)
            else:
                v, conv, spec = p
                if type(v) is str and conv == -1 and spec == "":
                    toks.append(v)
                    continue
                if conv == 114:
                    v = self.call(repr, v)
                elif conv == 115:
                    v = self.call(str, v)
                elif conv == 97:
                    v = ascii(strs.concretize(v, "ascii()"))
                toks.extend(toks_of(strs.fmt_value(v, None, spec)))
        return mk(tuple(toks))

    def getitem(self, o, k):
        if isinstance(o, dict):
            if isinstance(k, SIMPLE_SYM) or symkeys_fast(o):
                return self._dict_get(o, k)
            return o[k]
        if isinstance(k, SymInt):
            if not isinstance(o, SymStr):
                k = run().pin(k.e, "subscript")
        elif type(k) is slice:
            if not isinstance(o, SymStr) and (isinstance(k.start, SymInt) or isinstance(
                    k.stop, SymInt) or isinstance(k.step, SymInt)):
                k = slice(*(run().pin(x.e, "slice") if isinstance(x, SymInt) else x
                            for x in (k.start, k.stop, k.step)))
        elif isinstance(k, SymBool):
            k = bool(k)
        return o[k]

    def _merge_table(self, d, k):
        """Chain for a const-char table looked up with one symbolic char, or None."""
        if type(d) is dict and isinstance(k, SymStr) and len(k.toks) == 1 \
                and type(k.toks[0]) is Ch and d and len(d) < 64:
            for kk, v in d.items():
                if type(kk) is not str or len(kk) != 1 or not isinstance(v, str):
                    return None
            return k.toks[0].e
        return None

    def _dict_get(self, o, k):
        e = self._merge_table(o, k)
        if e is not None:
            cs = X.cs_of(list(o))
            if run().branch(In(e, cs)):
                return self._chain(o, e, None)
            raise KeyError(strs.plain(k))
        presolve(o, k)
        return o[k]

    def _chain(self, o, e, default):
        r = run()
        items = [(kk, v) for kk, v in o.items()
                 if r.decide(In(e, ((ord(kk), ord(kk)),))) is not False]
        if default is None:
            cur = toks_of(items[-1][1])
            items = items[:-1]
        else:
            cur = toks_of(default)
        for kk, v in items:
            cur = strs.tit(In(e, ((ord(kk), ord(kk)),)), toks_of(v), cur)
        return mk(cur)

    def setitem(self, o, k, v):
        return self.setitem_v(v, o, k)

    def setitem_v(self, v, o, k):
        if isinstance(o, dict):
            if type(o).__setitem__ is dict.__setitem__:
                presolve(o, k)
        elif isinstance(k, SymInt):
            k = run().pin(k.e, "subscript")
        elif type(k) is slice and any(isinstance(x, SymInt) for x in (k.start, k.stop)):
            k = slice(*(run().pin(x.e, "slice") if isinstance(x, SymInt) else x
                        for x in (k.start, k.stop, k.step)))
        o[k] = v

    def augitem(self, o, k, op, v):
        x = getattr(operator, op)(self.getitem(o, k), v)
        self.setitem(o, k, x)

    def delitem(self, o, k):
        if isinstance(o, dict):
            presolve(o, k)
        elif isinstance(k, SymInt):
            k = run().pin(k.e, "subscript")
        del o[k]

    def mkdict(self, items):
        r = {}
        for it in items:
            if len(it) == 1:
                m = it[0]
                if type(m) is dict and not symkeys(m) and not symkeys_fast(r):
                    r.update(m)
                else:
                    for k in m.keys():
                        self.setitem(r, k, m[k])
            else:
                k, v = it
                if isinstance(k, SIMPLE_SYM) or symkeys_fast(r):
                    presolve(r, k)
                r[k] = v
        return r

    def mkset(self, items):
        s = SxSet()
        for x in items:
            if isinstance(x, SIMPLE_SYM) or symkeys_fast(s):
                presolve(list(set.__iter__(s)), x)
            set.add(s, x)
        return s

    def dict_update(self, d, *a, **kw):
        for m in a:
            if hasattr(m, "keys"):
                for k in list(m.keys()):
                    presolve(d, k)
                    dict.__setitem__(d, k, m[k])
            else:
                for k, v in m:
                    presolve(d, k)
                    dict.__setitem__(d, k, v)
        for k, v in kw.items():
            presolve(d, k)
            dict.__setitem__(d, k, v)

    # ---- calls ----
    def call(self, f, /, *a, **k):
        try:
            h = self.B.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        tf = type(f)
        if tf is types.FunctionType:
            mod = f.__module__ or ""
            if mod.startswith("htmltools") or f.__code__.co_filename.startswith("/repo/"):
                return f(*a, **k)
            return self._pyfunc(f, mod, a, k)
        if tf is types.MethodType:
            mod = getattr(f.__func__, "__module__", "") or ""
            if mod.startswith("htmltools"):
                return f(*a, **k)
            return self._pyfunc(f, mod, a, k)
        if tf is types.BuiltinFunctionType:
            return self._builtin(f, a, k)
        if tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
            oc = f.__objclass__
            if oc is str and a:
                if any(isinstance(x, SymStr) for x in a) or f.__name__ == "join":
                    return getattr(lift(a[0]), f.__name__)(*a[1:], **k)
            elif oc is dict and a and isinstance(a[0], dict):
                return self._dictmeth(a[0], f.__name__, f, a[1:], k, unbound=True)
            return f(*a, **k)
        if tf is types.MethodWrapperType:
            s = f.__self__
            if isinstance(s, str) and any(isinstance(x, SymStr) for x in a):
                return getattr(lift(s), f.__name__)(*a)
            if isinstance(s, dict):
                return self._dictmeth(s, f.__name__, f, a, k)
            return f(*a, **k)
        if tf is type or isinstance(f, type):
            return self._construct(f, a, k)
        return f(*a, **k)

    def _pyfunc(self, f, mod, a, k):
        root = mod.split(".")[0]
        if self.fs is not None and root in ("posixpath", "genericpath") \
                and f.__name__ in FS_PATHFUNCS:
            return self._fscall(f, mod, a, k)
        if root in STD_OK_MODULES or root in ("props", "symx", "") or root.startswith("symx_std_"):
            return f(*a, **k)
        if root in FS_MODULES:
            return self._fscall(f, mod, a, k)
        if any(is_sym(x) or (type(x) in (list, tuple, dict) and models.has_sym(x, 2))
               for x in a) or any(is_sym(x) for x in k.values()):
            why = "call of %s.%s" % (mod, getattr(f, "__name__", "?"))
            a = tuple(_deep_pin(x, why) for x in a)
            k = {n: _deep_pin(x, why) for n, x in k.items()}
        return f(*a, **k)

    def _fscall(self, f, mod, a, k):
        """File-system operations run natively on the concrete names of this path; names
        are parameters of the file system (see DESIGN), so nothing is pinned."""
        if self.fs is not None:
            return self.fs.call(f, mod, a, k)
        return f(*a, **k)

    def _builtin(self, f, a, k):
        s = f.__self__
        name = f.__name__
        if isinstance(s, types.ModuleType) or s is None:
            mod = s.__name__ if s is not None else (f.__module__ or "")
            if mod in ("posix", "_io", "io", "os"):
                return self._fscall(f, mod, a, k)
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                if mod in ("_operator", "itertools", "_functools", "builtins",
                           "_collections", "_abc", "_typing"):
                    return f(*a, **k)
                why = "call of %s.%s" % (mod, name)
                a = tuple(_deep_pin(x, why) for x in a)
                k = {n: _deep_pin(x, why) for n, x in k.items()}
            return f(*a, **k)
        if isinstance(s, type):
            if s is dict and name == "fromkeys":
                it, *v = a
                r = {}
                for x in it:
                    presolve(r, x)
                    if x not in r:
                        r[x] = v[0] if v else None
                return r
            if issubclass(s, str) and name == "__new__":
                return self._str_new(a, k)
            if s is str and name == "maketrans":
                return f(*a, **k)
            if s is int and name == "__new__" and len(a) > 1 and is_sym(a[1]):
                return f(a[0], concretize(a[1], "int.__new__"))
            return f(*a, **k)
        if isinstance(s, str):
            if isinstance(s, SymStr):
                return f(*a, **k)
            if name == "join":
                items = list(a[0])
                if any(isinstance(x, SymStr) for x in items):
                    return strs.join(s, items)
                return f(items)
            if name == "format":
                return strs.str_format(s, a, k)
            if any(isinstance(x, (SymStr, SymInt)) for x in a) or any(
                    type(x) is tuple and any(isinstance(y, SymStr) for y in x) for x in a):
                return getattr(lift(s), name)(*a, **k)
            if name == "translate" and type(a[0]) is dict:
                return f(*a, **k)
            return f(*a, **k)
        if isinstance(s, dict):
            return self._dictmeth(s, name, f, a, k)
        if isinstance(s, (set, frozenset)):
            return self._setmeth(s, name, f, a, k)
        if isinstance(s, list):
            if name == "pop" and a and isinstance(a[0], SymInt):
                a = (run().pin(a[0].e, "list.pop"),)
            elif name == "insert" and isinstance(a[0], SymInt):
                a = (run().pin(a[0].e, "list.insert"),) + a[1:]
            elif name == "__init__" and len(a) == 1 and isinstance(a[0], SymStr):
                a = (list(a[0]),)
            return f(*a, **k)
        if isinstance(s, re.Pattern):
            return self._repat(s, name, f, a, k)
        if isinstance(s, re.Match):
            return f(*a, **k)
        if isinstance(s, io.StringIO):
            if any(isinstance(x, SymStr) for x in a):
                raise engine.SymxError("StringIO created outside the hooks")
            return f(*a, **k)
        if name == "write" and self.fs is not None:
            return self.fs.call(f, "_io", a, k)
        if any(is_sym(x) for x in a):
            why = "call of %s.%s" % (type(s).__name__, name)
            if type(s).__module__ in ("_io",):
                return self._fscall(f, "_io", a, k)
            if isinstance(s, (collections.deque, collections.OrderedDict, tuple)):
                return f(*a, **k)
            a = tuple(_deep_pin(x, why) for x in a)
        return f(*a, **k)

    def _dictmeth(self, d, name, f, a, k, unbound=False):
        args = ((d,) + tuple(a)) if unbound else a
        if name in ("get", "setdefault", "pop", "__getitem__", "__setitem__",
                    "__contains__", "__delitem__") and a:
            key = a[0]
            if isinstance(key, SIMPLE_SYM) or symkeys_fast(d):
                if name == "get":
                    e = self._merge_table(d, key)
                    dflt = a[1] if len(a) > 1 else k.get("default")
                    if e is not None and isinstance(dflt, str):
                        return self._chain(d, e, dflt)
                presolve(d, key)
            return f(*args, **k)
        if name in ("update", "__init__"):
            ms = [m for m in a if isinstance(m, dict)]
            if symkeys_fast(d) or any(symkeys(m) for m in ms) or symkeys(k) \
                    or len(ms) != len(a):
                src = []
                for m in a:
                    if hasattr(m, "keys"):
                        src.extend((x, m[x]) for x in m.keys())
                    else:
                        src.extend(tuple(m))
                src.extend(k.items())
                for kk, v in src:
                    presolve(d, kk)
                    dict.__setitem__(d, kk, v)
                return None
            return f(*args, **k)
        return f(*args, **k)

    def _setmeth(self, s, name, f, a, k):
        if name in ("add", "discard", "remove", "__contains__"):
            if isinstance(a[0], SIMPLE_SYM) or symkeys_fast(set.__iter__(s)
                                                            if isinstance(s, set) else s):
                presolve(list(set.__iter__(s)) if isinstance(s, set) else list(s), a[0])
            return f(*a, **k)
        if name in ("update", "union", "intersection", "difference",
                    "symmetric_difference", "difference_update", "intersection_update",
                    "issubset", "issuperset", "isdisjoint"):
            mine = list(set.__iter__(s)) if isinstance(s, set) else list(s)
            a2 = []
            for other in a:
                items = list(other)
                for x in items:
                    if isinstance(x, SIMPLE_SYM) or symkeys_fast(mine):
                        presolve(mine, x)
                if name == "update":
                    mine.extend(items)
                a2.append(items)
            r = f(*a2, **k)
            return SxSet(r) if type(r) is set else r
        return f(*a, **k)

    def _repat(self, p, name, f, a, k):
        if name in ("search", "match", "fullmatch", "findall", "finditer", "split"):
            s = a[0] if a else k.get("string")
            if isinstance(s, SymStr):
                if len(a) > 1 and name != "split" or k:
                    raise engine.SymxError("regex call with positions")
                g = getattr(rex, name)
                return g(p, s, *a[1:])
            return f(*a, **k)
        if name in ("sub", "subn"):
            names = ("repl", "string", "count")
            kw = dict(zip(names, a))
            kw.update(k)
            return self.re_sub(p, kw["repl"], kw["string"], kw.get("count", 0), 0,
                               name == "subn")
        return f(*a, **k)

    def re_sub(self, p, repl, s, count=0, flags=0, want_n=False):
        if isinstance(s, SymStr) or isinstance(repl, SymStr) or callable(repl) \
                or isinstance(p, SymStr):
            if isinstance(p, SymStr):
                p = concretize(p, "symbolic regex")
            if not isinstance(s, SymStr):
                if callable(repl) and engine.CUR is not None or isinstance(repl, SymStr):
                    return rex.sub(p, repl, s, count, flags, want_n)
            else:
                return rex.sub(p, repl, s, count, flags, want_n)
        if want_n:
            return re.subn(p, repl, s, count, flags)
        return re.sub(p, repl, s, count, flags)

    def _str_new(self, a, k):
        cls, *rest = a
        if rest and isinstance(rest[0], SymStr):
            if cls is str:
                return rest[0]
            return strs.mk_sub(cls, rest[0])
        if rest and not isinstance(rest[0], str) and len(rest) == 1:
            v = self.call(str, rest[0])
            if cls is str:
                return v
            return strs.mk_sub(cls, v) if isinstance(v, SymStr) else str.__new__(cls, v)
        return str.__new__(cls, *rest, **k)

    def _construct(self, f, a, k):
        mod = getattr(f, "__module__", "")
        if mod.startswith("htmltools"):
            return f(*a, **k)
        if mod == "pathlib":
            if self.fs is not None:
                return self.fs.call(f, mod, a, k)
        if f is io.StringIO:
            return SxStringIO(*a, **k)
        if issubclass(f, str) and a and is_sym(a[0]):
            return self._str_new((f,) + a, k)
        if any(is_sym(x) for x in a):
            if issubclass(f, BaseException) or issubclass(f, (list, tuple, collections.deque)) \
                    or f in (map, filter, zip, enumerate, reversed, slice, property) \
                    or mod.split(".")[0] in STD_OK_MODULES \
                    or any(c.__module__.startswith("htmltools") for c in f.__mro__):
                return f(*a, **k)
            why = "constructor %s" % f.__name__
            a = tuple(_deep_pin(x, why) for x in a)
        return f(*a, **k)

    # ---- builtins ----
    def _install(self):
        B = self.B
        B[isinstance] = self.b_isinstance
        B[type] = self.b_type
        B[len] = self.b_len
        B[str] = self.b_str
        B[repr] = self.b_repr
        B[int] = self.b_int
        B[bool] = lambda *a: (a[0] if isinstance(a[0], SymBool) else bool(*a)) if a else False
        B[ord] = self.b_ord
        B[chr] = self.b_chr
        B[range] = lambda *a: range(*(run().pin(x.e, "range") if isinstance(x, SymInt)
                                      else x for x in a))
        B[hash] = self.b_hash
        B[id] = self.b_id
        B[functools.lru_cache] = lru_cache
        B[functools.cache] = lambda f: lru_cache(maxsize=None)(f)
        for f in (time.time, time.time_ns, time.monotonic, time.monotonic_ns, time.perf_counter,
                  time.perf_counter_ns, time.process_time):
            B[f] = self._nondet(f, lambda w, f=f: (1 + w) * (1000 if "ns" in f.__name__ else 1.5))
        B[os.getpid] = self._nondet(os.getpid, lambda w: 4000 + w)
        B[random.random] = self._nondet(random.random, lambda w: 1.0 / (2 + w))
        B[random.randint] = self._nondet(random.randint, lambda w, a, b: a + w % (b - a + 1))
        B[random.getrandbits] = self._nondet(random.getrandbits, lambda w, n: w % 2 ** n)
        B[os.urandom] = self._nondet(os.urandom, lambda w, n: bytes([w + 1]) * n)
        B[uuid.uuid4] = self._nondet(uuid.uuid4, lambda w: uuid.UUID(int=w + 1))
        B[uuid.uuid1] = self._nondet(uuid.uuid1, lambda w, *a: uuid.UUID(int=w + 1))
        B[format] = lambda v, spec="": strs.fmt_value(v, None, spec)
        B[dict] = self.b_dict
        B[set] = lambda *a: self.mkset(a[0]) if a else SxSet()
        B[frozenset] = lambda *a: FrozenSx(self.mkset(a[0])) if a else FrozenSx()
        B[sorted] = self.b_sorted
        B[ascii] = lambda x: ascii(concretize(x, "ascii"))
        B[min] = min
        B[max] = max
        B[sum] = sum
        B[getattr] = self.b_getattr
        B[hasattr] = lambda o, n: hasattr(o, concretize(n, "attribute name"))
        B[setattr] = lambda o, n, v: setattr(o, concretize(n, "attribute name"), v)
        B[re.search] = lambda pattern, string, flags=0: (
            rex.search(pattern, string, flags) if isinstance(string, SymStr)
            else re.search(concretize(pattern, "regex"), string, flags))
        B[re.match] = lambda pattern, string, flags=0: (
            rex.match(pattern, string, flags) if isinstance(string, SymStr)
            else re.match(concretize(pattern, "regex"), string, flags))
        B[re.fullmatch] = lambda pattern, string, flags=0: (
            rex.fullmatch(pattern, string, flags) if isinstance(string, SymStr)
            else re.fullmatch(concretize(pattern, "regex"), string, flags))
        B[re.findall] = lambda pattern, string, flags=0: (
            rex.findall(pattern, string, flags) if isinstance(string, SymStr)
            else re.findall(concretize(pattern, "regex"), string, flags))
        B[re.finditer] = lambda pattern, string, flags=0: (
            iter(rex.finditer(pattern, string, flags)) if isinstance(string, SymStr)
            else re.finditer(concretize(pattern, "regex"), string, flags))
        B[re.split] = lambda pattern, string, maxsplit=0, flags=0: (
            rex.split(pattern, string, maxsplit, flags) if isinstance(string, SymStr)
            else re.split(concretize(pattern, "regex"), string, maxsplit, flags))
        B[re.sub] = lambda pattern, repl, string, count=0, flags=0: self.re_sub(
            pattern, repl, string, count, flags)
        B[re.subn] = lambda pattern, repl, string, count=0, flags=0: self.re_sub(
            pattern, repl, string, count, flags, True)
        B[re.escape] = lambda p: rex.escape(p) if isinstance(p, SymStr) else re.escape(p)
        B[re.compile] = lambda p, flags=0: re.compile(concretize(p, "regex"), flags)
        B[json.dumps] = models.dumps
        B[json.loads] = models.loads
        B[urllib.parse.quote] = models.quote
        B[urllib.parse.quote_plus] = models.quote_plus
        B[urllib.parse.unquote] = models.unquote
        B[urllib.parse.unquote_plus] = lambda s, *a, **k: models.unquote(s.replace("+", " "), *a, **k)
        for h in ("sha1", "md5", "sha256"):
            B[getattr(hashlib, h)] = models.hasher(h, getattr(hashlib, h))
        B[io.StringIO] = SxStringIO
        B[os.fspath] = lambda p: p if isinstance(p, str) else os.fspath(p)
        import posixpath as pp
        for n in ("join", "basename", "dirname", "split", "splitext", "normpath"):
            f = inst_posixpath(n)
            B[getattr(pp, n)] = f
        import html
        B[html.escape] = lambda s, quote=True: inst_std("html").escape(s, quote)
        import textwrap
        B[textwrap.indent] = self.b_textwrap_indent
        B[typing.cast] = lambda t, v: v

    def b_textwrap_indent(self, text, prefix, predicate=None):
        if not (is_sym(text) or is_sym(prefix)):
            import textwrap
            return textwrap.indent(text, prefix, predicate)
        out = []
        for line in lift(text).splitlines(True) if text != "" else []:
            l = lift(line) if isinstance(line, str) else line
            if (predicate(line) if predicate else l.strip() != ""):
                out.append(prefix)
            out.append(line)
        return strs.join("", out)

    def b_isinstance(self, x, cls):
        if isinstance(x, SymBool):
            if type(cls) is tuple:
                return any(self.b_isinstance(x, c) for c in cls)
            if isinstance(cls, types.UnionType) or typing.get_origin(cls) is typing.Union:
                return any(self.b_isinstance(x, c) for c in cls.__args__)
            if cls in (bool, int, object):
                return True
            return isinstance(True, cls)
        return isinstance(x, cls)

    def b_type(self, *a):
        if len(a) != 1:
            return type(*a)
        t = type(a[0])
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t is SymBytes:
            return bytes
        if t is SxSet:
            return set
        if t is FrozenSx:
            return frozenset
        return getattr(t, "_symx_base", t)

    def b_len(self, x):
        if isinstance(x, SymStr):
            return x.sx_len()
        d = getattr(x, "data", None)
        if isinstance(d, SymStr) and type(x).__len__ is collections.UserString.__len__:
            return d.sx_len()
        return len(x)

    def b_str(self, *a, **k):
        if len(a) != 1 or k:
            return str(*a, **k)
        x = a[0]
        if isinstance(x, SymStr):
            if type(x) is SymStr:
                return x
            r = type(x).__str__(x)
            if type(r) is not SymStr and isinstance(r, SymStr):
                return mk(r.toks)
            return r
        if isinstance(x, SymInt):
            return x.__str__()
        if isinstance(x, (list, tuple, dict)) and type(x) in (list, tuple, dict) \
                and models.has_sym(x, 4):
            return self.b_repr(x)
        if isinstance(x, type):
            return str(x)
        return str(x)

    def b_repr(self, x):
        if isinstance(x, (SymStr, SymInt, SymBool)):
            return x.__repr__()
        if type(x) in (list, tuple, dict) and models.has_sym(x, 4):
            if type(x) is dict:
                parts = []
                for k, v in x.items():
                    parts.append(strs.mk(toks_of(self.b_repr(k)) + (": ",)
                                         + toks_of(self.b_repr(v))))
                return mk(("{",) + toks_of(strs.join(", ", parts)) + ("}",))
            inner = toks_of(strs.join(", ", [self.b_repr(v) for v in x]))
            if type(x) is list:
                return mk(("[",) + inner + ("]",))
            return mk(("(",) + inner + ((",)",) if len(x) == 1 else (")",)))
        return repr(x)

    def b_int(self, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        if a and isinstance(a[0], SymBool):
            return wrapi(X.iite(a[0].e, 1, 0))
        if a and isinstance(a[0], SymStr):
            ts = a[0].toks
            if len(ts) == 1 and type(ts[0]) is strs.Num and len(a) == 1:
                return wrapi(ts[0].e)
            return int(concretize(a[0], "int() of a string"), *a[1:], **k)
        return int(*a, **k)

    def b_ord(self, c):
        if isinstance(c, SymStr):
            cells = strs.flatten(c.toks, True)
            if len(cells) != 1:
                raise TypeError("ord() expected a character")
            return ord(cells[0]) if type(cells[0]) is str else wrapi(cells[0].e)
        return ord(c)

    def b_chr(self, i):
        if isinstance(i, SymInt):
            return mk((strs.tch(i.e),))
        return chr(i)

    # ---- what may differ between interpreter processes ----
    world = None

    def set_world(self, w, order=None):
        """Run in interpreter process number w: other hash values, other addresses, another
        clock; order(items) is the iteration order of sets."""
        self.world = w
        self.set_order = order
        self.hash_oracle = None if w is None else (
            lambda x: (1 if w % 2 == 0 else -1) * ((zlib.crc32(
                plain(x).encode("utf-8", "surrogatepass")) >> 3) + w))

    def _nondet(self, f, g):
        def h(*a, **k):
            return f(*a, **k) if self.world is None else g(self.world, *a, **k)
        return h

    def b_id(self, x):
        if self.world is None or x is None or isinstance(x, (bool, type)):
            return id(x)
        return id(x) if self.world % 2 == 0 else 2 ** 50 - id(x)

    def b_hash(self, x):
        if isinstance(x, str):
            o = self.hash_oracle
            if o is not None:
                return o(x)
            if isinstance(x, SymStr):
                return hash(concretize(x, "hash()"))
        return hash(x)

    hash_oracle = None

    def b_dict(self, *a, **k):
        if a and isinstance(a[0], dict) and not k:
            m = a[0]
            r = {}
            # keys of one mapping are already pairwise distinct on this path
            for kk in m.keys():
                dict.__setitem__(r, kk, m[kk])
            return r
        r = {}
        self.dict_update(r, *a, **k)
        return r

    def b_sorted(self, it, *, key=None, reverse=False):
        return sorted(it, key=key, reverse=reverse)

    def b_getattr(self, o, n, *d):
        if isinstance(n, SymStr):
            n = concretize(n, "attribute name")
        return getattr(o, n, *d)


def symkeys_fast(d):
    for k in d:
        t = type(k)
        if t is not str and isinstance(k, SIMPLE_SYM):
            return True
    return False


def is_container_sym(c):
    if isinstance(c, SIMPLE_SYM):
        return True
    if isinstance(c, (dict, set, frozenset)):
        it = set.__iter__(c) if isinstance(c, set) else iter(c)
        for k in it:
            if type(k) is not str and isinstance(k, SIMPLE_SYM):
                return True
    return False


def lift(s):
    if isinstance(s, SymStr):
        return s
    o = str.__new__(SymStr, s)
    o.toks = toks_of(s) or ("",)
    return o


class SxStringIO:
    def __init__(self, initial="", newline="\n"):
        self.buf = [initial] if initial else []

    def write(self, s):
        self.buf.append(s)
        return len(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        v = strs.join("", self.buf)
        self.buf = [v]
        return v

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---- instrumented copies of pure-Python library code ----------------------------------------
_std = {}


def inst_std(name):
    m = _std.get(name)
    if m is None:
        real = importlib.import_module(name)
        with open(real.__file__) as f:
            src = f.read()
        if name == "posixpath":
            # the library's own pure-Python normpath instead of the C one
            src = src.replace("from posix import _path_normpath", "raise ImportError")
        m = types.ModuleType("symx_std_" + name)
        m.__file__ = real.__file__
        m.__package__ = name if hasattr(real, "__path__") else ""
        m.__dict__["__sx__"] = _LazySx()
        if hasattr(real, "__path__"):
            m.__path__ = real.__path__
            m.__name__ = name
        exec(compile_instrumented(src, real.__file__), m.__dict__)
        _std[name] = m
    return m


class _LazySx:
    def __getattr__(self, n):
        return getattr(sx, n)


def inst_posixpath(n):
    def f(*a, **k):
        if any(isinstance(x, SymStr) for x in a):
            return getattr(inst_std("posixpath"), n)(*a, **k)
        return getattr(posixpath, n)(*a, **k)
    f.__name__ = n
    return f


sx = Hooks()


def patch_collections():
    """UserString / UserList as instrumented copies (they are pure Python)."""
    if getattr(collections, "_symx_patched", False):
        return
    with open(collections.__file__) as f:
        tree = ast.parse(f.read())
    body = [n for n in tree.body if isinstance(n, ast.ClassDef)
            and n.name in ("UserString", "UserList")]
    tree = ast.Module(body, [])
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    ns = dict(collections.__dict__)
    ns["__sx__"] = sx
    ns["__name__"] = "collections"
    exec(compile(tree, collections.__file__, "exec", dont_inherit=True), ns)
    for n in ("UserString", "UserList"):
        setattr(collections, n, ns[n])
    collections._symx_patched = True


# ==================================================================================
# loading /repo
# ==================================================================================
REPO = os.environ.get("SYMX_REPO", "/repo")


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != "htmltools" and not name.startswith("htmltools."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            fn = base + ".py"
            spec = importlib.util.spec_from_loader(name, self, origin=fn)
        else:
            return None
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        module.__file__ = fn
        with open(fn) as f:
            src = f.read()
        module.__dict__["__sx__"] = sx
        exec(compile_instrumented(src, fn), module.__dict__)
        sx.encoded.add(fn)


_finder = None


def load():
    """(Re)load the instrumented package; returns the top-level module."""
    global _finder
    patch_collections()
    if _finder is None:
        _finder = Finder()
        sys.meta_path.insert(0, _finder)
    for n in [n for n in sys.modules if n == "htmltools" or n.startswith("htmltools.")]:
        del sys.modules[n]
    m = importlib.import_module("htmltools")
    importlib.import_module("htmltools._jsx")
    return m


def fingerprint():
    """Cheap summary of module-level mutable state."""
    out = []
    for n in sorted(sys.modules):
        if n == "htmltools" or n.startswith("htmltools."):
            m = sys.modules[n]
            for k, v in list(m.__dict__.items()):
                if k.startswith("__") and k not in ("__all__",):
                    continue
                out.append((n, k, summ(v)))
    return out


def srepr(k):
    if isinstance(k, (str, int, float)) and not isinstance(k, SIMPLE_SYM):
        return repr(k)[:40]
    if isinstance(k, tuple):
        return "(%s)" % ",".join(map(srepr, k))
    return "%s %d" % (type(k).__name__, id(k))


def summ(v, depth=2):
    if isinstance(v, SIMPLE_SYM):
        return ("sym", id(v))
    if isinstance(v, (str, int, float, bool, type(None))):
        return repr(v)
    if isinstance(v, dict):
        return ("d", len(v), tuple((srepr(k), summ(x, depth - 1) if depth else id(x))
                                   for k, x in list(v.items())[:200]))
    if isinstance(v, (list, tuple, set, frozenset)):
        it = sorted(map(srepr, list(set.__iter__(v)) if isinstance(v, set) else v)) \
            if isinstance(v, (set, frozenset)) else [
            summ(x, depth - 1) if depth else id(x) for x in list(v)[:200]]
        return ("l", len(v), tuple(it))
    if isinstance(v, type):
        if v.__module__.startswith("htmltools"):
            return (id(v), tuple((k, summ(x, 1) if isinstance(
                x, (dict, list, set, int, str, bool)) else id(x))
                for k, x in v.__dict__.items()
                if k not in ("__weakref__", "__dict__", "__doc__")
                and not k.startswith("_abc") and k != "_is_protocol"
                and not k.startswith("__non_callable") and k != "__annotations__"
                and k != "__parameters__"))
        return id(v)
    ci = getattr(v, "cache_info", None)
    if ci is not None:
        try:
            return (id(v), ci().currsize)
        except Exception:
            return id(v)
    if isinstance(v, types.FunctionType) and v.__module__.startswith("htmltools"):
        return (id(v), summ(v.__defaults__, 1) if v.__defaults__ else None,
                len(v.__dict__))
    return id(v)


def _mods():
    return [m for n, m in sys.modules.items()
            if (n == "htmltools" or n.startswith("htmltools.")) and m is not None]


def fast_fingerprint():
    """Identity of every module global and class attribute of the package plus the content
    of its module-level containers and caches: detects state left behind by a run."""
    out = []
    for m in _mods():
        d = m.__dict__
        out.append((m.__name__, len(d), hash(tuple(map(id, d.values())))))
        for k, v in list(d.items()):
            t = type(v)
            if t in (dict, list, set, SxSet):
                if k == "__builtins__" or k == "__annotations__":
                    continue
                out.append((k, summ(v, 1)))
            elif isinstance(v, type):
                if v.__module__ == m.__name__:
                    for kk, x in list(v.__dict__.items()):
                        if kk[:1] == "_" and (kk.startswith("_abc") or kk.startswith("__")
                                              or kk in ("_is_protocol",)):
                            continue
                        out.append(summ(x, 1) if type(x) in (dict, list, set, SxSet)
                                   else id(x))
            elif t is types.FunctionType:
                if v.__dict__:
                    ci = v.__dict__.get("cache_info")
                    if ci is not None:
                        out.append((k, ci().currsize))
                    else:
                        out.append((k, summ(v.__dict__, 1)))
                if v.__defaults__:
                    for x in v.__defaults__:
                        if type(x) in (dict, list, set, SxSet):
                            out.append((k, summ(x, 1)))
            else:
                ci = getattr(v, "cache_info", None)
                if ci is not None and callable(ci):
                    out.append((k, ci().currsize))
    return out
