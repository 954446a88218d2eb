"""Fills the generated parts of DESIGN.md (python3-vt tools/gen_design.py)."""
import importlib, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
fn = root + "/DESIGN.md"
s = open(fn).read()


def put(tag, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag),
               lambda m: m.group(1) + text + m.group(2), s, flags=re.S)


out = []
for i in range(1, 21):
    p = "C%02d" % i
    m = importlib.import_module("props." + p.lower())
    b = m.BOUNDS
    out.append("**%s** %s\n" % (p, " ".join((m.__doc__ or "").split())[len(p):].strip()))
    out.append("- quick: %s\n- thorough: %s\n" % (b["quick"], b["thorough"]))
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("- assumes: %s\n" % a)
    out.append("- encoded: %s\n\n" % ", ".join("`%s`" % e for e in m.ENCODED))
put("BOUNDS", "".join(out))
k = json.load(open(root + "/known_findings.json"))
put("FIXES", "".join("* %s\n" % re.sub(r"fixed: property=(\w+) (\w+)", r"\1 `\2`", x) for x in k["fixed"]))
rows = ["| id | property | needs | breaks |\n|---|---|---|---|\n"]
for d in sorted(os.listdir(root + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s | %s |\n" % (d, j["property"], j["needs"], j["what_it_breaks"]))
put("SEEDED", "".join(rows))
open(fn, "w").write(s)
