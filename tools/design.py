"""writes DESIGN.md from tools/design_head.md, the METAs and evidence (harnesses and their bounds) and seeded/*/meta.json"""
import ast, glob, json, os, re
from gen import consts, HERE

def main():
    t = open(os.path.join(HERE, "tools", "design_head.md")).read()
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    t = t.replace("FIXED_LIST", "\n".join("* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"\1 (`\2`): ", f) for f in k["fixed"]))
    rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
    status = {}
    p = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(p): status = json.load(open(p))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "\\|"), status.get(os.path.basename(d), "yes")))
    t = t.replace("SEED_TABLE", "\n".join(rows))
    out = [t.rstrip(), ""]
    for p in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9][0-9].py"))):
        id = os.path.basename(p)[:-3].upper()
        c = consts(p)
        m = c["META"]
        out += ["### %s %s" % (id, m["title"]), "", m["statement"], "",
                "*Why tests cannot settle it*: " + m["why"], "",
                "*Method*: " + c["TECHNIQUE"] + ".", "", "*Over*: " + m["text"] + ".", "",
                "*Outside*: " + c.get("OUTSIDE", "").rstrip(".") + "." + (" *Assumes*: " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else ""), ""]
        ev = os.path.join(HERE, "evidence", id + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            hs = e["coverage"]["harnesses"]
            g = {}
            for h in hs: g.setdefault((h["name"].split("[")[0], h["bounds"]), []).append(h)
            out += ["*Harnesses* (%s tier):" % e["tier"], ""]
            if len(g) > 14:   # many bounds per harness: the first few of each
                by = {}
                for (n, b), l in g.items(): by.setdefault(n, []).append((b, l))
                for n, bl in by.items():
                    k = sum(len(l) for b, l in bl)
                    short = lambda b: b if len(b) < 160 else b[:157] + "..."
                    out.append("* `%s` (%d variants): %s%s" % (n, k, "; ".join(short(b) for b, l in bl[:4]), "; and %d more bounds, see the evidence file" % (len(bl) - 4) if len(bl) > 4 else ""))
                g = {}
            for (n, b), l in g.items(): out.append("* `%s`%s: %s" % (n, " (%d variants)" % len(l) if len(l) > 1 else "", b or "see its docstring"))
            out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))

main()
