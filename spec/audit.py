"""Development-time audit of schema.json: prints the outliers a human then judged (see DESIGN.md)."""
import json, collections, sys, os
d = json.load(open(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(__file__), "schema.json")))
by = collections.defaultdict(lambda: collections.defaultdict(list))
for m, its in d.items():
    for n, i in its.items():
        if i["k"] != "struct": continue
        for f in i["fields"]:
            if f["t"] == "String": by[f["x"]][(f.get("min"), f.get("max"), f.get("pat"))].append(f"{m}::{n}")
for x, fs in sorted(by.items()):
    if len(fs) > 1 and sum(len(v) for v in fs.values()) > 3:
        print(x)
        for k, v in sorted(fs.items(), key=lambda z: -len(z[1])): print("   ", len(v), k, v[:2] if len(v) < 4 else "")
en = collections.defaultdict(lambda: collections.defaultdict(list))
for m, its in d.items():
    for n, i in its.items():
        if i["k"] == "enum": en[n][tuple(sorted(c for _, c in i["codes"]))].append(m)
for n, v in en.items():
    if len(v) > 1: print("ENUM", n, {k: len(x) for k, x in v.items()})
    for codes in v:
        if len(set(codes)) != len(codes): print("DUP", n)
st = collections.defaultdict(lambda: collections.defaultdict(list))
for m, its in d.items():
    for n, i in its.items():
        if i["k"] == "struct":
            xs = [f["x"] for f in i["fields"]]
            if len(set(xs)) != len(xs): print("DUPX", m, n, xs)
            st[n][tuple((f["x"], f["c"]) for f in i["fields"])].append(m)
print("structs with several shapes:", sum(len(v) > 1 for v in st.values()))
