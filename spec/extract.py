"""Development-time tool (not run by any check): drafts /verif/spec/schema.json from the generated
message modules of the pinned commit; the draft was then audited (spec/audit.py) and is the
committed oracle.  Usage: python3 extract.py <repo checkout> > schema.json"""
import re, sys, os, json
repo = sys.argv[1]
UNESC = lambda s: json.loads('"' + s.replace("\\'", "'") + '"')
out = {}
for part in ("document", "header"):
    for fn in sorted(os.listdir(f"{repo}/src/{part}")):
        if fn == "mod.rs": continue
        mod = f"{part}::{fn[:-3]}"
        s = open(f"{repo}/src/{part}/{fn}").read()
        items = {}
        for m in re.finditer(r"^pub struct (\w+) \{\n(.*?)^\}", s, re.S | re.M):
            fields = []
            for fm in re.finditer(r"#\[serde\((.*?)\)\]\s*pub (\w+): ([^\n]+),\n", m.group(2), re.S):
                attrs, name, ty = fm.groups()
                xml = re.search(r'rename\s*=\s*"([^"]+)"', attrs).group(1)
                rest = re.sub(r'rename\s*=\s*"[^"]+"', "", attrs)
                skip = "skip_serializing_if" in rest
                t, card = ty, "1"
                if t.startswith("Option<"): t, card = t[7:-1], "?"
                if t.startswith("Vec<"): t, card = t[4:-1], ("*" if card == "1" else "?*")
                box = t.startswith("Box<")
                if box: t = t[4:-1]
                assert re.fullmatch(r"\w+", t), ty
                assert skip == (card[0] == "?"), (mod, m.group(1), name)
                fields.append({"f": name, "x": xml, "c": card, "t": t, **({"box": 1} if box else {})})
            assert len(fields) == m.group(2).count("pub "), (mod, m.group(1))
            items[m.group(1)] = {"k": "struct", "fields": fields}
        for m in re.finditer(r"^pub struct (\w+) \{\}", s, re.M): items[m.group(1)] = {"k": "struct", "fields": []}
        for m in re.finditer(r"^pub enum (\w+) \{\n(.*?)^\}", s, re.S | re.M):
            vs = re.findall(r'#\[serde\(rename = "([^"]+)"\)\]\s*(\w+),', m.group(2))
            assert len(vs) == len(re.findall(r"^    \w+,", m.group(2), re.M)), (mod, m.group(1))
            items[m.group(1)] = {"k": "enum", "codes": [[v, c] for c, v in vs]}
        for m in re.finditer(r"^impl Validate for (\w+) \{\n    fn validate\(.*?\) \{(.*?)\}\n\}", s.replace("{}\n}", "{\n    }\n}"), re.S | re.M):
            it = items[m.group(1)]; body = m.group(2)
            if it["k"] == "enum":
                assert "helpers" not in body; continue
            by = {f["f"]: f for f in it["fields"]}
            toks = re.compile(r'if let Some\(ref (?:val|vec)\) = self\.(\w+)(\s*&& config\.validate_optional_fields)?|for item in &self\.(\w+)|helpers::(validate_length|validate_pattern)\(\s*(&self\.(\w+)|val|item),\s*"([^"]*)",\s*((?:Some\(\d+\)|None),\s*(?:Some\(\d+\)|None)|"(?:[^"\\]|\\.)*"),\s*&helpers::child_path\(path, "([^"]*)"\)|(self\s*\.(\w+)|val|item)\s*\.validate\(\s*&helpers::child_path\(path, "([^"]*)"\)')
            cur = None
            n = 0
            for t in toks.finditer(body):
                g = t.groups()
                if g[0]: cur = by[g[0]]; cur["_opt"] = bool(g[1]); assert cur["c"][0] == "?"
                elif g[2]: cur = by[g[2]]; assert cur["c"] == "*"
                elif g[3]:
                    f = by[g[5]] if g[5] else cur
                    n += 1
                    assert g[6] == g[8] == f["x"], (mod, m.group(1), g, f)
                    assert f["t"] == "String"
                    assert not f.get("_opt")
                    if g[3] == "validate_length":
                        a, b = [x.strip() for x in g[7].split(",")]
                        if a != "None": f["min"] = int(a[5:-1])
                        if b != "None": f["max"] = int(b[5:-1])
                    else: f["pat"] = UNESC(g[7][1:-1])
                elif g[9]:
                    n += 1
                    f = by[g[10]] if g[10] else cur
                    assert g[11] == f["x"], (mod, m.group(1), g)
                    assert f["t"] not in ("String", "bool", "f64")
                    if f["c"][0] == "?": assert f.get("_opt"), (mod, m.group(1), f)
                    f["v"] = 1
            assert n == body.count("helpers::child_path"), (mod, m.group(1), n, body)
            for f in it["fields"]:
                f.pop("_opt", None)
                if f["t"] not in ("String", "bool", "f64") and not f.get("v"): print("NOT VALIDATED", mod, m.group(1), f, file=sys.stderr)
        out[mod] = items
json.dump(out, sys.stdout, indent=None, separators=(",", ":"))
