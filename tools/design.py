"""fills the generated parts of DESIGN.md: list of fixes and of planted bugs (tables between markers)"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        fixes = json.load(f)
    text = "\n".join("* " + x["entry"] for x in fixes)
    rows = []
    base = os.path.join(ROOT, "seeded")
    res = {}
    rf = os.path.join(ROOT, "tools", "seeded_results.json")
    if os.path.exists(rf):
        with open(rf) as f:
            res = json.load(f)
    for i in sorted(os.listdir(base)):
        with open(os.path.join(base, i, "meta.json")) as f:
            m = json.load(f)
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(i, "")))
    tab = "\n".join(["| Bug | Property | What it breaks | Caught by |", "|---|---|---|---|"] + rows)
    p = os.path.join(ROOT, "DESIGN.md")
    with open(p) as f:
        s = f.read()
    for tag, t in (("FIXES", text), ("SEEDED", tab)):
        s = re.sub(r"<!-- %s -->.*?<!-- end -->" % tag, lambda m: "<!-- %s -->\n%s\n<!-- end -->" % (tag, t), s, flags=re.S)
    with open(p, "w") as f:
        f.write(s)


main()
