"""File-system recorder for symbolic runs.

File-system calls of the instrumented code run natively, on the concrete names of the
current path, inside a scratch directory; the recorder keeps the *symbolic* arguments of
the calls that copy, remove and write, so that a harness can state its assertions over all
names (the solver decides whether target and URL agree for every name, not only for the
names of this path).
"""
from __future__ import annotations

import os
import pathlib
import posixpath

from . import strs
from .strs import is_sym, plain


def _path(x):
    """The (possibly symbolic) str of a path-like argument."""
    if isinstance(x, str):
        return x
    if isinstance(x, SymPath):
        return x.sym
    if isinstance(x, os.PathLike):
        return os.fspath(x)
    return x


def nat(x):
    if isinstance(x, str):
        return plain(x) if is_sym(x) else x
    return x


class SymPath(pathlib.PosixPath):
    """A pathlib.Path that also carries the symbolic text of the path."""
    registry = {}

    def __init__(self, *args):
        parts = [_path(a) for a in args]
        sym = strs_join(parts) if parts else "."
        super().__init__(nat(sym))
        self.sym = sym if is_sym(sym) else self.registry.get(super().__str__(), super().__str__())

    def __str__(self):
        return self.sym if is_sym(self.sym) else super().__str__()

    def __fspath__(self):
        return self.__str__()

    def as_posix(self):
        return self.__str__()

    def __truediv__(self, o):
        return SymPath(self, o)

    def __rtruediv__(self, o):
        return SymPath(o, self)

    def joinpath(self, *a):
        return SymPath(self, *a)

    def _abs(self):
        if self.sym[:1] == "/":
            return self.sym
        return os.getcwd() + "/" + self.sym

    def resolve(self, strict=False):
        r = pathlib.PosixPath(nat(self.sym)).resolve(strict)
        p = norm(self._abs())
        return SymPath(p) if nat(p) == str(r) else SymPath(str(r))

    def absolute(self):
        return SymPath(self._abs())

    @property
    def parent(self):
        n = len(plain(self.sym)) - len(nat(self.sym).rstrip("/").rpartition("/")[2]) - 1 \
            if "/" in nat(self.sym) else None
        if n is None:
            return SymPath(".")
        return SymPath(self.sym[:n] if n > 0 else "/")

    @property
    def name(self):
        s = nat(self.sym)
        i = s.rfind("/")
        return self.sym[i + 1:]

    def relative_to(self, other, *a, **k):
        s, o = self.sym, nat(_path(other))
        if is_sym(s) and nat(s).startswith(o.rstrip("/") + "/"):
            return SymPath(s[len(o.rstrip("/")) + 1:])
        return SymPath(str(pathlib.PosixPath(nat(s)).relative_to(o, *a, **k)))

    def iterdir(self):
        for x in sorted(pathlib.PosixPath(nat(self.sym)).iterdir()):
            yield SymPath(str(x))

    def glob(self, pattern, **k):
        for x in sorted(pathlib.PosixPath(nat(self.sym)).glob(nat(pattern), **k)):
            yield SymPath(str(x))

    def rglob(self, pattern, **k):
        for x in sorted(pathlib.PosixPath(nat(self.sym)).rglob(nat(pattern), **k)):
            yield SymPath(str(x))


def strs_join(parts):
    out = parts[0]
    for p in parts[1:]:
        q = nat(p)
        if q.startswith("/"):
            out = p
        elif q == "" or q == ".":
            continue
        elif nat(out) == "" or nat(out) == ".":
            out = p
        elif nat(out).endswith("/"):
            out = out + p
        else:
            out = out + "/" + p
    return out


def norm(p):
    """posixpath.normpath, keeping symbolic components (a symbolic component is neither
    '.', '..' nor empty in the harnesses that use this)."""
    if not is_sym(p):
        return posixpath.normpath(p)
    comps, cur, sym = [], [], False
    for t in strs.toks_of(p):
        if type(t) is str:
            for c in t:
                if c == "/":
                    comps.append((cur, sym))
                    cur, sym = [], False
                else:
                    cur.append(c)
        else:
            cur.append(t)
            sym = True
    comps.append((cur, sym))
    out = []
    for toks, s in comps:
        txt = None if s else "".join(toks)
        if txt in ("", "."):
            continue
        if txt == ".." and out:
            out.pop()
            continue
        out.append(strs.mk(strs.norm(tuple(toks))) if s else txt)
    r = "/" if nat(p).startswith("/") else ""
    for i, c in enumerate(out):
        r = r + ("/" if i else "") + c
    return r


COPY = {"copy", "copy2", "copyfile", "copytree", "move", "link", "symlink", "rename", "replace"}
WRITE = {"write"}


class Recorder:
    def __init__(self):
        self.copies = []        # (name, source, target)
        self.writes = {}        # file path -> [texts]
        self.ops = []
        SymPath.registry.clear()

    def known(self, path):
        """Let directory listings return the symbolic spelling of this path."""
        SymPath.registry[nat(path)] = path

    def listed(self, d, names):
        reg = SymPath.registry
        out = []
        for n in sorted(names):
            full = reg.get(nat(_path(d)).rstrip("/") + "/" + n)
            out.append(full[len(nat(full)) - len(n):] if full is not None and is_sym(full) else n)
        return out

    def settle(self, x):
        """Fork on whether a symbolic path argument is one of the registered paths: which
        file a call touches is then the same for every value on this path."""
        if not isinstance(x, (str, SymPath)):
            return
        p = _path(x)
        if not is_sym(p):
            return
        if nat(p)[:1] != "/":
            p = os.getcwd() + "/" + p
        p = norm(p)
        for q in SymPath.registry.values():
            if is_sym(q) and bool(p == q):
                return

    def call(self, f, mod, a, k):
        if isinstance(f, type) and issubclass(f, pathlib.PurePath):
            return SymPath(*a, **k)
        name = getattr(f, "__name__", "?")
        if name != "write":
            for x in tuple(a[:2]) + tuple(k.values()):
                self.settle(x)
        self.ops.append((name, a))
        if name in COPY and len(a) + len(k) >= 2 and mod.split(".")[0] in ("shutil", "os", "posix"):
            src = a[0] if a else k.get("src")
            dst = a[1] if len(a) > 1 else k.get("dst")
            self.copies.append((name, _path(src), _path(dst)))
        elif name == "write" and a:
            w = getattr(f, "__self__", None)
            self.writes.setdefault(getattr(w, "name", "?"), []).append(a[0])
        elif name == "write_text" and a:
            self.writes.setdefault(nat(_path(f.__self__)), []).append(a[0])
        if name == "realpath" and a and is_sym(_path(a[0])):
            p = _path(a[0])
            if nat(p)[:1] != "/":
                p = os.getcwd() + "/" + p
            q = norm(p)
            r = f(nat(_path(a[0])))
            return q if nat(q) == r else r
        if name == "abspath" and a and is_sym(_path(a[0])):
            p = _path(a[0])
            return norm(p if nat(p)[:1] == "/" else os.getcwd() + "/" + p)
        if name == "listdir":
            return self.listed(a[0] if a else ".", f(*[nat(_path(x)) for x in a]))
        return f(*[nat(_path(x)) if isinstance(x, (str, SymPath)) and name != "write" else
                   nat(x) for x in a], **{n: nat(_path(x)) if isinstance(x, (str, SymPath)) else x
                                          for n, x in k.items()})

    def copied(self, src, dst):
        """Entries whose concrete target is dst or a directory above it; None if the copy
        was made by a call that is not recorded."""
        d = nat(dst)
        for name, s, t in self.copies:
            q = posixpath.normpath(nat(t))
            if q == d or d.startswith(q + "/"):
                return name, s, t
            if name in ("copy", "copy2", "move") and posixpath.join(
                    q, posixpath.basename(nat(s))) == d:
                return name, s, t + "/" + s[len(nat(s)) - len(posixpath.basename(nat(s))):]
        return None
