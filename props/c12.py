"""C12  Dependency URLs and copied files agree."""
import html.parser
import os
import posixpath
import shutil
import sys
import tempfile
import urllib.parse

from props import common as C
from symx import expr as X
from symx import fsrec, models, pat, session

ENCODED = ["HTMLDependency.source_path_map", "HTMLDependency.as_dict",
           "HTMLDependency.as_html_tags", "HTMLDependency.copy_to", "HTMLDocument.save_html",
           "Tag.save_html", "TagList.save_html", "HTMLDocument.render", "package_dir",
           "HTMLDocument._hoist_head_content", "HTMLDependency.__init__"]
BOUNDS = {
    "quick": "URLs: a script and a stylesheet with arbitrary file names of 1 to 2 characters (any "
             "Unicode scalar value but '/' and NUL) and at one level of nesting, arbitrary "
             "one-character dependency names, 5 versions, 7 lib prefixes, directory, package and "
             "URL sources with and without trailing slash; copies: up to 2 scripts and 2 "
             "stylesheets with 1 to 2 arbitrary one-character names, every subset of them missing, "
             "8 states of the target, all_files over a nested source tree, 5 spellings of the "
             "source; saves: documents, tags and lists with up to 2 dependencies, 12 values of "
             "libdir (one with an arbitrary character), 5 spellings of the file, saving twice with "
             "the source changed in between"
             "; 70 listed files with duplicates and deep paths, all of them or one missing; "
             "dangling links as missing files; two dependencies in one destination",
    "thorough": "the same with file names of up to 2 characters everywhere and every "
                "combination of target state, source kind and missing subset",
}
COVER = ["local", "url", "copied", "missing", "allfiles", "stale", "nothing", "saved", "returned",
         "resaved", "agree", "pkg"]
ASSUMPTIONS = [
    "file-system calls run natively on the concrete names of a path; the recorder forks on whether "
    "a symbolic path equals a registered one and keeps the symbolic arguments of copies and writes",
    "dependency names consist of unreserved URL characters (the property asks for the literal "
    "name both in the URL and as the directory)",
    "source and target directories are disjoint; the target is not a regular file; listed paths "
    "are relative, without '.', '..' or empty components; no symbolic links"]
LIMITS = {"quick": {"max_paths": 4000}, "thorough": {"max_paths": 40000}}
FILECS = X.cs_minus(session.UNICODE, X.cs_of("/\0"))
NAMECS = X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~")
VERSIONS = ("1.0", "1.10.0", "1!2.0", "1.0+loc.1", "2.0rc1")
PREFIXES = ("lib", None, "", "a/b", "lib/", "../x", "/abs", "/")
HREFS = ("https://x.org/y", "https://x.org/y/", "//cdn", "/static/", "rel", "https://x.org/y?z=/")
LIBDIRS = ("lib", None, "", "a/b", "lib/", "../sib", ".", "a b", "50%41", "x#y", "q?r=s/t", "%sym")
TARGETS = ("none", "empty", "files", "dirs", "mixed", "nested", "nodest", "blocked")
SOURCES = ("dir", "slash", "rel", "pkg", "pkgsub")
NASTY = ("%41", "a%20b.js", "%", "%zz", "100%", "a+b", "a b", "#", "?q=1", "a&b", "a;b", "a=b",
         "\u00e9", "\u65e5\u672c", "\U0001f600", 'a"b', "a'b", "<x>", "a\\b", "c:d", "@x", "~", "%2F",
         "%25", "&amp;", "x\ny", "a|b", "[1]", "{}", "`", "^", "..a", "a..", "http:", "e\u0301",
         "\ud7ff", "a.min.js", " a ", "a%", "%c3%a9", "+", "%2e%2e", "$(x)", "long" * 40)
NSPLIT = 4
RAW = X.cs_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!*,;:@=$()+")


def shapes(tier):
    out = [dict(kind="url", src="local", lp=i) for i in range(len(PREFIXES))]
    out += [dict(kind="url", src="href", h=i) for i in range(len(HREFS))]
    out += [dict(kind="url", src="local", lp=i % len(PREFIXES), f=i) for i in range(NSPLIT)]
    out += [dict(kind="url", src="href", h=i % len(HREFS), f=i) for i in range(NSPLIT)]
    out += [dict(kind="nothing", src=s) for s in ("url", "none")]
    full = tier != "quick"
    combos = [(n, t, s) for n in range(5) for t in range(len(TARGETS))
              for s in range(len(SOURCES))]
    for n, t, s in combos:
        if full or s == (n + t) % len(SOURCES):
            out.append(dict(kind="copy", n=n, target=t, source=s))
    for t in range(len(TARGETS)):
        for s in range(len(SOURCES)):
            if full or s == (t + 1) % len(SOURCES):
                out.append(dict(kind="all", target=t, source=s))
    for i in range(len(LIBDIRS)):
        for w in range(len(WHO)):
            if full or w in (0, 1 + i % 3):
                out.append(dict(kind="save", lib=i, who=w))
    out += [dict(kind="many", all=a) for a in (0, 1)]
    out += [dict(kind="save", lib=0, who=w, file=f) for f in range(1, len(FILES)) for w in (0, 2)]
    out += [dict(kind="two", who=w, lib=i) for w in range(len(WHO))
            for i in range(len(LIBDIRS) - 1)
            if full or i in (0, 1)]
    return out


# -- patterns ----------------------------------------------------------------------------
def one(x):
    """Pattern of a percent-encoding of one path component (characters that need no escape
    may be written either way, hexadecimal digits in either case)."""
    out = []
    for t in pat.toks_of(x):
        if type(t) is str:
            for c in t:
                out.append(enc_lit(c))
        elif type(t) is pat.Ch:
            out.append(enc_sym(t.e))
        elif type(t) is pat.It:
            out.extend(pat.tit(t.c, one_t(t.a), one_t(t.b)))
        else:
            raise ValueError("file name token")
    return tuple(out)


def one_t(toks):
    return one(pat_str(toks)) if toks else ()


def pat_str(toks):
    from symx import strs
    return strs.mk(toks)


def enc_lit(c, raw=RAW):
    bs = c.encode("utf-8")
    alts = [(True, ("".join("%%%02X" % b for b in bs),)), (True, ("".join("%%%02x" % b for b in bs),))]
    if X.cs_has(raw, ord(c)):
        alts.insert(0, (True, (c,)))
    return pat.talt(alts, "pct")


def enc_sym(e):
    raw = X.In(e, RAW)
    alts = [(raw, (pat.tch(e),))] if raw is not False else []
    for n, cs in enumerate((models.U1, models.U2, models.U3, models.U4), 1):
        here = X.In(e, cs)
        if here is False:
            continue
        alts.append((here, models.pct(e, n)))
        toks = []
        for b in models.utf8_exprs(e, n):
            toks += ["%", models.hexdig(X.mod(X.div(b, 16), 16)), models.hexdig(X.mod(b, 16))]
        alts.append((here, tuple(toks)))
    return pat.talt(alts, "pct")


LIBRAW = X.cs_or(X.cs_minus(RAW, X.cs_of(":")), X.cs_of(" "))


def lib_pat(c):
    """A component of libdir: percent-encoded, or raw where that means the same directory."""
    if type(c) is str:
        return tuple(enc_lit(x, LIBRAW) for x in c)
    return one(c)


def path_pat(f):
    """f is a list of path components."""
    out = ()
    for i, x in enumerate(f):
        out = out + (pat.lit("/") if i else ()) + one(x)
    return out


def joined(f):
    out = f[0]
    for x in f[1:]:
        out = out + "/" + x
    return out


def isname(S, x):
    S.assume(x != ".")
    S.assume(x != "..")
    return x


def fname(S, name, n=1):
    return isname(S, S.str(name, n, 1, cs=FILECS))


def prefix(lp, name):
    return name if not lp else lp.rstrip("/") + "/" + name


# -- run ---------------------------------------------------------------------------------
def run(S, shape):
    kind = shape["kind"]
    S._cwd, S._path, S._mods = None, None, None
    if kind == "url":
        return url(S, shape)
    S._tmp = os.path.realpath(tempfile.mkdtemp(prefix="vc12_"))
    S._cwd = os.getcwd()
    if not S.concrete:
        from symx import instr
        instr.sx.fs = fsrec.Recorder()
        S._fs = instr.sx.fs
    else:
        S._fs = None
    {"nothing": nothing, "copy": copy, "all": all_files, "save": save, "two": two,
     "many": many}[kind](S, shape)


def cleanup(S):
    if getattr(S, "_cwd", None):
        os.chdir(S._cwd)
    if getattr(S, "_path", None):
        sys.path.remove(S._path)
        for m in [m for m in sys.modules if m.split(".")[0] == "vc12pkg"]:
            del sys.modules[m]
    if getattr(S, "_tmp", None):
        shutil.rmtree(S._tmp)
        S._tmp = None


# -- URLs --------------------------------------------------------------------------------
def url(S, shape):
    HD = S.ht.HTMLDependency
    name, ver = "n", "1.0"
    if "f" not in shape:
        name = S.str("n", 1, 1, cs=NAMECS) + S.pick("n2", ("", "d-1"))
        ver = S.pick("v", VERSIONS)
    f, g = fname(S, "f", 2), fname(S, "g", 1)
    if "f" in shape:
        f = S.pick("nasty", NASTY[shape["f"]::NSPLIT])
    layout = S.choice("layout", 3)
    script = [[f], ["d", f], [f, g]][layout]
    sheet = [[g], [g, f], [g]][layout]
    iv = S.flag("iv")
    extra = {"defer": ""} if layout == 1 else {}
    if shape["src"] == "local":
        lp = PREFIXES[shape["lp"]]
        src = [{"subdir": "/s p"}, {"package": "htmltools", "subdir": "lib"}][S.choice("src", 2)]
        base = prefix(lp, name) + ("-" + str(S.ht._core.Version(ver)) if iv else "") + "/"
    else:
        lp = S.pick("lp", PREFIXES)
        h = HREFS[shape["h"]]
        src = {"href": h}
        base = h if h.endswith("/") else h + "/"
    d = HD(name, ver, source=src, script=[dict({"src": joined(script)}, **extra), {"src": "z.js"}],
           stylesheet={"href": joined(sheet), "media": "print"}, all_files=S.flag("all"))
    kw = dict(lib_prefix=lp, include_version=iv)
    if lp == "lib" and S.flag("dflt"):
        kw.pop("lib_prefix")
    if iv and S.flag("dflt2"):
        kw.pop("include_version")
    r = d.as_dict(**kw)
    items = [(r["script"][0]["src"], script), (r["script"][1]["src"], ["z.js"]),
             (r["stylesheet"][0]["href"], sheet)]
    tags = d.as_html_tags(**kw)
    S.check(len(tags) == 4 - (tags[-1] is None) or len(tags) == 3, "one tag per item")
    tg = [t for t in tags if isinstance(t, S.ht.Tag)]
    S.check([t.name for t in tg] == ["link", "script", "script"], "one tag per item, in order")
    if [t.name for t in tg] == ["link", "script", "script"]:
        items += [(tg[0].attrs.get("href"), sheet), (tg[1].attrs.get("src"), script),
                  (tg[2].attrs.get("src"), ["z.js"])]
    for u, comps in items:
        if shape["src"] == "local":
            S.check_match(u, pat.lit(base) + path_pat(comps), "prefix/name[-version]/encoded path")
            S.covers("local")
        else:
            S.check_match(u, pat.lit(base) + (pat.talt([(True, path_pat(comps)),
                                                        (True, pat.lit(joined(comps)))], "raw"),),
                          "href/path")
            S.covers("url")
    # asking for the URLs changes nothing: the same call gives the same answer
    r2 = d.as_dict(**kw)
    S.check_eq(r2["script"][0]["src"], r["script"][0]["src"], "as_dict is repeatable")
    S.check_eq(r2["stylesheet"][0]["href"], r["stylesheet"][0]["href"], "as_dict is repeatable")
    S.observe([u for u, _ in items])


# -- directories -------------------------------------------------------------------------
def put(path, data):
    path = nat(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def nat(x):
    return fsrec.nat(x)


def tree(path):
    """{relative path: bytes, or None for a directory}."""
    path = nat(path)
    if not os.path.isdir(path):
        return None
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path)] = None
        for f in files:
            if os.path.islink(os.path.join(root, f)):
                out[os.path.relpath(os.path.join(root, f), path)] = ("->", os.readlink(os.path.join(root, f)))
                continue
            with open(os.path.join(root, f), "rb") as h:
                out[os.path.relpath(os.path.join(root, f), path)] = h.read()
    return out


def dirs_of(files):
    out = dict(files)
    for f in files:
        d = posixpath.dirname(f)
        while d:
            out[d] = None
            d = posixpath.dirname(d)
    return out


def content(tag):
    return (tag + "\r\n\xe9\0").encode("latin-1")


def source(S, kind, inside):
    """Create the source directory; -> (HTMLDependency source argument, path)."""
    if kind in ("pkg", "pkgsub"):
        root = os.path.join(S._tmp, "py")
        p = os.path.join(root, "vc12pkg")
        put(p + "/__init__.py", b"")
        pkg = "vc12pkg"
        if kind == "pkgsub":
            p += "/inner"
            put(p + "/__init__.py", b"")
            pkg = "vc12pkg.inner"
        sys.path.insert(0, root)
        S._path = root
        S.covers("pkg")
        return {"package": pkg, "subdir": inside}, os.path.join(p, inside)
    p = os.path.join(S._tmp, "w", inside)
    os.makedirs(p)
    if kind == "rel":
        os.chdir(os.path.join(S._tmp, "w"))
        return {"subdir": inside}, p
    return {"subdir": p + ("/" if kind == "slash" else "")}, p


def known(S, path):
    if S._fs is not None:
        S._fs.known(path)


def fill_target(S, state, dest, tdir, files):
    """Pre-existing state of the destination; the siblings in it must survive."""
    if state == "nodest":
        return
    os.makedirs(dest)
    d = nat(tdir)
    put(dest + "/keep.txt", b"k")
    put(d + "0/x", b"sibling")
    put(d + "-old/y/z", b"sibling")
    put(os.path.join(os.path.dirname(d), "q%/x"), b"sibling")
    if state in ("empty", "files", "dirs", "mixed", "nested", "blocked"):
        os.makedirs(d)
    if state in ("files", "mixed"):
        put(d + "/stale", b"old")
        put(d + "/" + nat(joined(files[0])) if files else d + "/s2", b"stale version")
    if state in ("dirs", "mixed"):
        put(d + "/sub/deep/stale", b"old")
        os.makedirs(d + "/emptydir")
    if state == "nested":
        put(d + "/d/e/f/stale", b"old")
        put(d + "/.hidden", b"old")
    if state == "blocked" and files:
        # a directory where a file goes, and a file where a directory goes
        f = nat(joined(files[-1]))
        if "/" in f:
            put(d + "/" + f.split("/")[0], b"file")
        else:
            os.makedirs(d + "/" + f + "/x")


def siblings(dest, d):
    t = tree(dest) or {}
    r = os.path.relpath(nat(d), dest)
    return {k: v for k, v in t.items()
            if k != r and not k.startswith(r + "/") and not r.startswith(k + "/")}


def listing(S, n):
    """Listed scripts and stylesheets (lists of path components) of configuration n."""
    two = S.tier != "quick" or n in (0, 2)
    f = fname(S, "f", 2 if two else 1)
    S.assume(f != "d")
    S.assume(f != "e")
    S.assume(f != "z.js")
    if n == 0:
        return [[f]], []
    # a name that looks percent-encoded must not be decoded
    g = S.str("g", 1, 1, cs=FILECS) + "%41" if n in (1, 3) else fname(S, "g", 1)
    S.assume(g != "d")
    S.assume(g != "e")
    S.assume(g != f)
    S.assume(g != "z.js")
    if n == 1:
        return [[f]], [["d", g]]
    if n == 2:
        return [["d", f], [g]], [["d", "e", f]]
    if n == 3:
        return [[f], ["z.js"]], [[g], ["d", f]]
    return [], [[f, g]]


def same_name(S, a, b, label):
    S.check_expr(pat.match_toks(pat.toks_of(a), pat.lit(b)), label, a)


def copied(S, files, src, tdir, label):
    """Every listed file was copied from its own source to the path its URL names, whatever
    the characters of its name."""
    if S._fs is None:
        return
    for f in files:
        p = joined(f)
        c = S._fs.copied(src + "/" + p, tdir + "/" + p)
        if c is None:
            continue                      # copied by other means: the concrete tree decides
        name, s, t = c
        ns, nt = fsrec.norm(s), fsrec.norm(t)
        ds = posixpath.normpath(nat(t))
        if ds == nat(tdir + "/" + p):
            same_name(S, ns, src + "/" + p, label + ": source")
            same_name(S, nt, tdir + "/" + p, label + ": target")


def names(name, ver, iv, S):
    return name + ("-" + str(S.ht._core.Version(ver)) if iv else "")


def copy(S, shape):
    scripts, sheets = listing(S, shape["n"])
    files = scripts + sheets
    name = S.str("n", 1, 1, cs=NAMECS)
    ver = VERSIONS[shape["target"] % len(VERSIONS)]
    iv = S.flag("iv")
    kw, src = source(S, SOURCES[shape["source"]], "s d" if shape["n"] % 2 else "s d%41")
    dest = os.path.join(S._tmp, "dest", "x" if shape["source"] == 1 else "")
    dest = dest.rstrip("/")
    tdir = dest + "/" + names(name, ver, iv, S)
    put(src + "/unlisted", b"u")
    put(src + "/d/unlisted", b"u")
    for f in files:                       # decoys: what the name would decode to
        if f[-1][-3:] == "%41":
            decoy = f[:-1] + [f[-1][:-3] + "A"]
            for x in files:
                S.assume(joined(x) != joined(decoy))
            known(S, src + "/" + joined(decoy))
            put(src + "/" + joined(decoy), b"decoy")
    missing = [i for i in range(len(files)) if S.flag("missing%d" % i)]
    for i, f in enumerate(files):
        known(S, src + "/" + joined(f))
        known(S, tdir + "/" + joined(f))
        if i not in missing:
            put(src + "/" + joined(f), content("c%d" % i))
        elif shape["n"] in (0, 4):        # a link to nowhere is no file
            p = nat(src + "/" + joined(f))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink("nowhere", p)
    known(S, tdir)
    fill_target(S, TARGETS[shape["target"]], dest, tdir, files)
    put(S._tmp + "/other/o", b"o")
    before, sib, from_ = tree(tdir), siblings(dest, tdir), tree(src)
    whole = tree(S._tmp)
    d = S.ht.HTMLDependency(name, ver, source=kw, script=[{"src": joined(f)} for f in scripts],
                            stylesheet=[{"href": joined(f)} for f in sheets])
    out, err = S.attempt(d.copy_to, dest, include_version=iv) if not (iv and S.flag("dflt")) \
        else S.attempt(d.copy_to, dest)
    if missing:
        S.check(err is not None, "a missing listed file raises")
        S.check(tree(S._tmp) == whole, "a missing file raises before anything is touched")
        S.covers("missing")
    else:
        S.check(err is None, "copying succeeds")
        want = dirs_of({nat(joined(f)): content("c%d" % i) for i, f in enumerate(files)})
        S.check(tree(tdir) == want, "the target holds exactly the listed files")
        if before:
            S.covers("stale")
        copied(S, files, src, tdir, "copy")
        S.covers("copied")
        S.check(siblings(dest, tdir) == sib, "nothing else in the destination changes")
    S.check(tree(src) == from_, "the source is not changed")
    S.check(tree(S._tmp + "/other") == {"o": b"o"}, "nothing else is changed")
    S.observe([repr(type(err).__name__), sorted(tree(tdir) or ())])


def all_files(S, shape):
    f, g = fname(S, "f", 1 if S.tier == "quick" else 2), fname(S, "g", 1)
    for x in ("d", "e", ".hid", "zz"):
        S.assume(f != x)
        S.assume(g != x)
    S.assume(f != g)
    name = S.str("n", 1, 1, cs=NAMECS)
    iv = S.flag("iv")
    kw, src = source(S, SOURCES[shape["source"]], "s d%41")
    dest = os.path.join(S._tmp, "dest")
    tdir = dest + "/" + names(name, "1.0", iv, S)
    rels = [[f], ["d", g], ["d", "e", f], [".hid"], [g, f], ["zz", ".h2"], ["d", ".git", "x"],
            ["d", "no ext"]]
    for i, r in enumerate(rels):
        known(S, src + "/" + joined(r))
        put(src + "/" + joined(r), content("a%d" % i))
    known(S, src + "/" + g)
    for r in rels:
        known(S, tdir + "/" + joined(r))
    known(S, tdir + "/" + g)
    known(S, tdir)
    os.makedirs(src + "/e/empty")
    put(src + "/zerobytes", b"")
    fill_target(S, TARGETS[shape["target"]], dest, tdir, [[f], ["d", g]])
    sib, from_, before = siblings(dest, tdir), tree(src), tree(tdir)
    n = S.choice("listed", 3)
    d = S.ht.HTMLDependency(name, "1.0", source=kw, all_files=True,
                            script=[[], {"src": joined([f])}, [{"src": joined(["d", g])}]][n],
                            stylesheet=[None, None, {"href": joined(["d", "e", f])}][n])
    _, err = S.attempt(d.copy_to, dest, include_version=iv)
    S.check(err is None, "copying succeeds")
    S.check(tree(tdir) == from_, "the target is the whole source directory")
    S.check(tree(src) == from_, "the source is not changed")
    S.check(siblings(dest, tdir) == sib, "nothing else in the destination changes")
    copied(S, [[f], [".hid"], ["zerobytes"]], src, tdir, "all files")
    if before:
        S.covers("stale")
    S.covers("allfiles")
    S.observe(sorted(tree(tdir) or ()))


def many(S, shape):
    """Many files, some listed twice, some deep; one of them missing."""
    f = fname(S, "f", 1)
    at = S.pick("at", (0, 35, 69))
    files = [["x%d.js" % i] if i % 3 == 0 else ["d%d" % (i % 7), "x%d.js" % i] if i % 3 == 1 else
             ["deep"] * (i % 9) + ["x%d.css" % i] for i in range(70)]
    files[at] = files[at][:-1] + [f]
    files[20] = files[41] = files[5]
    kw, src = source(S, "dir", "s")
    dest = os.path.join(S._tmp, "dest")
    tdir = dest + "/many-1.0"
    for x in [*("d%d" % i for i in range(7)), "deep", *(q[-1] for i, q in enumerate(files) if i != at)]:
        S.assume(f != x)
    gone = None if shape["all"] else S.pick("gone", (None, 0, 5, 34, 68))
    for i, r in enumerate(files):
        known(S, src + "/" + joined(r))
        known(S, tdir + "/" + joined(r))
        if i != gone and not (gone == 5 and i in (20, 41)):
            data = content("m" if i in (20, 41, 5) else "m%d" % i)
            if i == 9:                    # a link: what it points to is copied
                put(S._tmp + "/elsewhere/x", data)
                os.makedirs(os.path.dirname(nat(src + "/" + joined(r))), exist_ok=True)
                here = nat(src + "/" + joined(r))
                os.symlink(os.path.relpath(S._tmp + "/elsewhere/x", os.path.dirname(here)), here)
                continue
            put(src + "/" + joined(r), data)
    known(S, tdir)
    fill_target(S, "mixed", dest, tdir, files)
    if not shape["all"]:
        put(src + "/unlisted", b"u")
    sib, from_, whole = siblings(dest, tdir), tree(src), tree(S._tmp)
    d = S.ht.HTMLDependency("many", "1.0", source=kw, all_files=bool(shape["all"]),
                            script=[{"src": joined(r)} for r in files[:40]],
                            stylesheet=[{"href": joined(r)} for r in files[40:]])
    _, err = S.attempt(d.copy_to, dest)
    if gone is not None:
        S.check(err is not None, "a missing listed file raises")
        S.check(tree(S._tmp) == whole, "a missing file raises before anything is touched")
        S.covers("missing")
        return
    S.check(err is None, "copying succeeds")
    want = {k: v for k, v in from_.items() if shape["all"] or k != "unlisted"}
    want[joined(files[9])] = content("m9")
    S.check(tree(tdir) == want, "the target holds exactly the listed files")
    S.check(tree(src) == from_, "the source is not changed")
    S.check(siblings(dest, tdir) == sib, "nothing else in the destination changes")
    S.observe(sorted(tree(tdir) or ()))


def nothing(S, shape):
    name = S.str("n", 1, 1, cs=NAMECS)
    f = fname(S, "f", 1)
    iv, af = S.flag("iv"), S.flag("all")
    exists = S.choice("dest", 3)
    dest = S._tmp + "/dest"
    tdir = dest + "/" + names(name, "1.0", iv, S)
    os.makedirs(S._tmp + "/cwd/sub")
    os.chdir(S._tmp + "/cwd")
    put(S._tmp + "/cwd/" + f, b"x")
    known(S, S._tmp + "/cwd/" + f)
    if exists:
        put(dest + "/keep", b"k")
        if exists == 2:
            put(tdir + "/stale", b"s")
    src = {"href": S.pick("h", ("https://x.org", "//cdn/", "sub", ""))} \
        if shape["src"] == "url" else None
    before = tree(S._tmp)
    d = S.ht.HTMLDependency(name, "1.0", source=src, script={"src": f},
                            stylesheet=[{"href": f}], all_files=af)
    r, err = S.attempt(d.copy_to, dest, include_version=iv)
    S.check(err is None, "nothing to copy is not an error")
    S.check(tree(S._tmp) == before, "a dependency without local source copies nothing")
    how = S.choice("save", 3)
    if how:
        file = S._tmp + "/out.html"
        x = [None, S.ht.HTMLDocument(d), S.ht.TagList(d)][how]
        r, err = S.attempt(x.save_html, file, libdir="dest", include_version=iv)
        S.check(err is None, "saving succeeds")
        after = tree(S._tmp)
        S.check(after.pop("out.html", None) is not None, "the file is written")
        S.check(after == before, "a dependency without local source copies nothing")
    S.covers("nothing")
    S.observe(sorted(before))


# -- save_html ---------------------------------------------------------------------------
WHO = ("doc", "tag", "list", "lazy")
FILES = ("abs", "rel", "reldir", "dotdot", "dot")


class Urls(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.urls = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script" and "src" in a:
            self.urls.append(a["src"])
        if tag == "link" and "href" in a:
            self.urls.append(a["href"])


def content_of(S, who, deps):
    ht = S.ht
    if who == "tag":
        return ht.Tag("div", "t", *deps)
    if who == "list":
        return ht.TagList("t", deps, ht.Tag("p"))
    if who == "lazy":
        class Lazy:
            def tagify(self):
                return ht.TagList("t", ht.Tag("p", *deps))
        return ht.Tag("section", Lazy())
    return ht.HTMLDocument(ht.Tag("div", *deps), "t", lang="en")


def file_of(S, how):
    os.makedirs(S._tmp + "/site/sub", exist_ok=True)
    os.chdir(S._tmp + "/site")
    return {"abs": (S._tmp + "/site/o.html", S._tmp + "/site"),
            "rel": ("o.html", S._tmp + "/site"),
            "reldir": ("sub/o.html", S._tmp + "/site/sub"),
            "dotdot": ("sub/../../o.html", S._tmp),
            "dot": ("./sub/./o.html", S._tmp + "/site/sub")}[how]


def save_once(S, x, file, where, lib, iv, specs, kinds):
    """Save, then compare URLs and files; specs: (name, ver, src, files, all_files)."""
    kw = dict(libdir=lib, include_version=iv)
    if lib == "lib" and S.flag("dflt"):
        kw = dict(include_version=iv)
    if iv and S.flag("dflt2"):
        kw.pop("include_version")
    if S._fs is not None:
        S._fs.copies.clear()
        S._fs.writes.clear()
    out, err = S.attempt(x.save_html, file, **kw)
    S.check(err is None, "saving succeeds")
    if err is not None:
        return None
    S.check(isinstance(out, str) and nat(out) == file, "save_html returns the path it wrote")
    S.covers("returned")
    path = os.path.join(where, "o.html")
    S.check(os.path.isfile(path), "the file is written where it was asked for")
    if not os.path.isfile(path):
        return None
    with open(path, encoding="utf-8", newline="") as h:
        text = h.read()
    base = where + ("/" + lib.rstrip("/") if lib else "")
    p = Urls()
    p.feed(text)
    urls = list(p.urls)
    S.check(len(urls) == sum(len(s[3]) for s in specs), "one URL per listed item")
    # concrete: each URL, resolved and decoded, names a copied file equal to a source file
    got = []
    for u in urls:
        S.check(not urllib.parse.urlsplit(u).query and not urllib.parse.urlsplit(u).fragment
                and not urllib.parse.urlsplit(u).scheme, "the URL is a plain path")
        q = os.path.normpath(os.path.join(where, urllib.parse.unquote(urllib.parse.urlsplit(u).path)))
        got.append(q)
    want = []
    for name, ver, src, fs, af in specs:
        tdir = base + "/" + names(name, ver, iv, S)
        for f in fs:
            want.append(os.path.normpath(nat(tdir + "/" + joined(f))))
            a, b = nat(src + "/" + joined(f)), nat(tdir + "/" + joined(f))
            S.check(os.path.isfile(b) and open(a, "rb").read() == open(b, "rb").read(),
                    "the copied file is byte-identical to its source")
        if af:
            S.check(tree(tdir) == tree(src), "all files are copied")
        else:
            S.check(set(tree(tdir) or ()) == set(dirs_of({nat(joined(f)): 0 for f in fs})),
                    "the target holds the listed files only")
            copied(S, fs, src, tdir, "save")
    S.check(sorted(set(got)) == sorted(set(want)), "every URL names its copied file")
    # symbolic: for every name, the URL written is the encoding of the path copied to
    if S._fs is not None:
        wr = S._fs.writes.get(path) or S._fs.writes.get(file)
        if wr:
            t = wr[0]
            for w in wr[1:]:
                t = t + w
        else:
            t = text
        S.check(nat(t) == text, "the recorded text is the text of the file")
    else:
        t = text
    for (name, ver, src, fs, af) in specs:
        libs = () if not lib else tuple(lib.rstrip("/").split("/"))
        for j, f in enumerate(fs):
            pre = ()
            for c in libs:
                pre = pre + lib_pat(c) + pat.lit("/")
            if lib and lib.startswith("/"):
                pre = pat.lit("/") + pre
            u = pre + pat.lit(names(name, ver, iv, S) + "/") + path_pat(f)
            S.check_match(t, pat.anything() + pat.lit('src="' if kinds[j] else 'href="') + u +
                          pat.lit('"') + pat.anything(), "the URL names the copied file")
    S.covers("agree")
    S.covers("saved")
    return text


def lib_of(S, i):
    lib = LIBDIRS[i]
    if lib == "%sym":
        lib = isname(S, S.str("lib", 1, 1, cs=X.cs_minus(FILECS, X.cs_of("\\"))))
    return lib


def save(S, shape):
    lib = lib_of(S, shape["lib"])
    symlib = not (lib is None or shape["lib"] != len(LIBDIRS) - 1)
    who = WHO[shape["who"]]
    f = fname(S, "f", 1)
    S.assume(f != "d")
    S.assume(f != "e")
    S.assume(f != "unlisted")
    name = S.str("n", 1, 1, cs=NAMECS)
    S.assume(name != "d")
    ver = VERSIONS[shape["lib"] % len(VERSIONS)]
    iv = S.flag("iv")
    af = S.flag("all")
    file, where = file_of(S, FILES[shape.get("file", 0)])
    kw, src = source(S, SOURCES[(0, 1, 3, 4)[shape["who"]]], "s")
    fs = [[f], ["d", f]]
    base = where + ("/" + lib.rstrip("/") if lib else "")
    tdir = base + "/" + names(name, ver, iv, S)
    for i, x in enumerate(fs):
        known(S, src + "/" + joined(x))
        known(S, fsrec.norm(tdir + "/" + joined(x)))
        put(src + "/" + joined(x), content("s%d" % i))
    known(S, fsrec.norm(tdir))
    put(src + "/unlisted", b"u")
    if S.flag("stale"):
        put(tdir + "/d/stale", b"old")
        put(tdir + "/" + f, b"old")
        S.covers("stale")
    d = S.ht.HTMLDependency(name, ver, source=kw, script={"src": joined(fs[0])},
                            stylesheet={"href": joined(fs[1])}, all_files=af)
    x = content_of(S, who, [d])
    text = save_once(S, x, file, where, lib, iv, [(name, ver, src, fs, af)], [True, False])
    S.observe(text if text is None else len(text))


def two(S, shape):
    """Two dependencies; then the sources change and the same object is saved again."""
    lib = LIBDIRS[shape["lib"]]
    who = WHO[shape["who"]]
    f = fname(S, "f", 1)
    S.assume(f != "d")
    S.assume(f != "e")
    iv = S.flag("iv")
    names2 = S.pick("names", (("a", "b"), ("a", "a-1"), ("jq", "jq.ui")))
    file, where = file_of(S, "abs")
    base = where + ("/" + lib.rstrip("/") if lib else "")
    specs, deps = [], []
    for i, nm in enumerate(names2):
        src = S._tmp + "/src%d" % i
        fs = [[f], ["d", f]] if i == 0 else [["d", f]]
        ver = "1.0" if i == 0 else "1.1"
        tdir = base + "/" + names(nm, ver, iv, S)
        known(S, fsrec.norm(tdir))
        for j, x in enumerate(fs):
            known(S, src + "/" + joined(x))
            known(S, fsrec.norm(tdir + "/" + joined(x)))
            put(src + "/" + joined(x), content("s%d%d" % (i, j)))
        specs.append((nm, ver, src, fs, i == 1))
        deps.append(S.ht.HTMLDependency(nm, ver, source={"subdir": src},
                                        script=[{"src": joined(x)} for x in fs],
                                        all_files=i == 1))
    x = content_of(S, who, deps)
    kinds = [True, True]
    t1 = save_once(S, x, file, where, lib, iv, specs, kinds)
    # the second save sees other contents and other files
    put(specs[0][2] + "/" + joined([f]), content("changed"))
    put(specs[1][2] + "/d/" + f, content("changed too"))
    put(specs[1][2] + "/new", b"n")
    if t1 is not None:
        t2 = save_once(S, x, file, where, lib, iv, specs, kinds)
        S.check(t1 == t2, "saving again writes the same text")
        S.covers("resaved")
    # a missing source: the error comes before that dependency's target is touched
    os.remove(nat(specs[0][2] + "/d/" + f))
    tdir = base + "/" + names(specs[0][0], specs[0][1], iv, S)
    put(tdir + "/mark", b"m")
    before = tree(tdir)
    _, err = S.attempt(x.save_html, file, libdir=lib, include_version=iv)
    S.check(err is not None, "a missing listed file raises")
    S.check(tree(tdir) == before, "its target directory is not touched")
    S.observe(t1 if t1 is None else len(t1))
