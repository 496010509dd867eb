"""writes properties.jsonl and MANIFEST.json from the META of each props/cNN.py and from NOT_APPLICABLE below"""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = os.path.join(HERE, "tools", "not_applicable.json")

def consts(path):
    out = {}
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("META", "TECHNIQUE", "OUTSIDE", "ASSUMPTIONS"):
            out[st.targets[0].id] = (eval(compile(ast.Expression(st.value), "", "eval"), {"dict": dict, "__builtins__": {}}))
    return out

def prop_line(id, m):
    return dict(id=id, title=m["title"], statement=m["statement"], quantifier=dict(over=m.get("over", ["inputs"]), text=m["text"]),
                why_tests_cant=m["why"], anchors=dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]]))

def main():
    lines, checks, na = [], [], []
    for p in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9][0-9].py"))):
        id = os.path.basename(p)[:-3].upper()
        c = consts(p)
        if "META" not in c: print("no META:", id); continue
        m = c["META"]
        assert len(m["title"]) <= 80, id
        lines.append(prop_line(id, m))
        note = "Bounded: within the bounds written in the evidence file every path of the encoded functions is explored and z3 decides the assertion for all values. Outside: %s. Trusts the symbolic Python runtime in sym/ (every explored path's model is replayed on the plain code, sampled) and z3." % c.get("OUTSIDE", "").rstrip(".")
        if c.get("ASSUMPTIONS"): note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
        checks.append(dict(property=id, quick_cmd="python3-vt -m sym.run %s" % id, thorough_cmd="python3-vt -m sym.run %s --tier thorough" % id,
                           technique=c.get("TECHNIQUE", ""), level="other", level_note=note))
    if os.path.exists(NA):
        for m in json.load(open(NA)):
            lines.append(prop_line(m["id"], m))
            na.append(dict(property=m["id"], reason=m["reason"]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for l in sorted(lines, key=lambda l: l["id"]): f.write(json.dumps(l) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in lines: jsonschema.validate(l, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print(len(lines), "properties,", len(checks), "claimed")

if __name__ == "__main__": main()
