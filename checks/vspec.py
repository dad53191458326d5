"""The oracle of the validation checks: the committed schema table, its reference semantics on
concrete values (used to confirm counterexamples natively) and the symbolic form of the same rules."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHEMA = json.load(open(os.path.join(ROOT, "spec/schema.json")))
PRIM = ("String", "bool", "f64")
WSC = {9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}
def trim(s):
    i, j = 0, len(s)
    while i < j and ord(s[i]) in WSC: i += 1
    while j > i and ord(s[j - 1]) in WSC: j -= 1
    return s[i:j]
_rx = {}
def full(p, s):
    """whole-value match of a schema pattern (ASCII classes; '.' excludes the newline)"""
    if p not in _rx:
        q = p.replace("\\d", "[0-9]") if not re.search(r"\[[^\]]*\\d", p) else p
        _rx[p] = re.compile(r"(?:%s)\Z" % p)
    return _rx[p].match(s) is not None
def facet_errors(f, s):
    out = []
    if "min" in f and len(s) < f["min"]: out.append(1001)
    if "max" in f and len(s) > f["max"]: out.append(1002)
    if "pat" in f and not full(f["pat"], trim(s)): out.append(1005)
    return out
def child_path(p, x): return x if p == "" else p + "." + x

def expected(mod, ty, val, path, optional):
    """[(code, field, path)] a full validation reports for a value tree.
    val: {rust field: value}; missing keys are defaults (None for options, empty for lists and strings)"""
    it = SCHEMA[mod][ty]
    out = []
    if it["k"] == "enum": return out
    for f in it["fields"]:
        v = val.get(f["f"]) if isinstance(val, dict) else None
        if f["c"] in ("?", "?*") and v is None: continue
        if f["c"] in ("*", "?*"): vs = v or []
        else: vs = [v]
        cp = child_path(path, f["x"])
        for e in vs:
            if f["t"] == "String":
                for c in facet_errors(f, e if e is not None else ""): out.append((c, f["x"], cp))
            elif f["t"] not in PRIM and f.get("v"):
                if f["c"][0] == "?" and not optional: continue
                out += expected(mod, f["t"], e if e is not None else {}, cp, optional)
    return out

def bad_string(f):
    """a string that violates a facet of f, or None"""
    for s in ("", "\u0394", "x" * (f.get("max", 0) + 1)):
        if facet_errors(f, s): return s
    return None
_bad = {}
def bad(mod, ty, depth=6):
    """smallest value tree of a type with at least one violation reachable, or None"""
    k = (mod, ty, depth)
    if k in _bad: return _bad[k]
    it = SCHEMA[mod][ty]
    r = None
    if it["k"] == "struct":
        for f in it["fields"]:
            if f["t"] == "String" and bad_string(f) is not None:
                s = bad_string(f)
                r = {f["f"]: [s] if "*" in f["c"] else s}; break
        if r is None and depth:
            for f in sorted(it["fields"], key=lambda f: f["c"][0] == "?"):
                if f["t"] not in PRIM and f.get("v"):
                    b = bad(mod, f["t"], depth - 1)
                    if b is not None: r = {f["f"]: [b] if "*" in f["c"] else b}; break
    _bad[k] = r
    return r
def has_rules(mod, ty): return bad(mod, ty) is not None

# ------------------------------------------------------------------ a smallest valid value
def _gen(node):
    """a string the parsed Python pattern matches"""
    out = ""
    for op, a in node:
        op = str(op)
        if op == "LITERAL": out += chr(a)
        elif op == "ANY": out += "A"
        elif op == "IN":
            k, v = str(a[0][0]), a[0][1]
            out += chr(v) if k == "LITERAL" else chr(v[0]) if k == "RANGE" else "0"
        elif op in ("MAX_REPEAT", "MIN_REPEAT"): out += _gen(a[2]) * a[0]
        elif op == "SUBPATTERN": out += _gen(a[3])
        elif op == "BRANCH": out += _gen(a[1][0])
        else: raise ValueError(op)
    return out
def good_string(f):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import sre_parse
    s = _gen(sre_parse.parse(f["pat"])) if "pat" in f else ""
    for t in (s, "A" * f.get("min", 0), s.ljust(f.get("min", 0), "0"), "A.A.00"):
        if not facet_errors(f, t): return t
    raise ValueError(f)
_good = {}
def good(mod, ty):
    """a value tree of a type that a full validation accepts (optional parts left out)"""
    k = (mod, ty)
    if k not in _good:
        it = SCHEMA[mod][ty]; r = {}
        if it["k"] == "struct":
            for f in it["fields"]:
                if f["c"] != "1": continue
                if f["t"] == "String": r[f["f"]] = good_string(f)
                elif f["t"] not in PRIM: r[f["f"]] = good(mod, f["t"])
        _good[k] = r
    return _good[k]
def bad_in(mod, ty):
    """bad(), with everything else in the value valid"""
    def go(ty, b):
        r = dict(good(mod, ty))
        if not isinstance(b, dict): return r
        for k, v in b.items():
            f = next(f for f in SCHEMA[mod][ty]["fields"] if f["f"] == k)
            r[k] = v if f["t"] in PRIM else [go(f["t"], e) for e in v] if isinstance(v, list) else go(f["t"], v)
        return r
    b = bad(mod, ty)
    return None if b is None else go(ty, b)

# ------------------------------------------------------------------ Rust source of a value tree
def rs(s):
    o = []
    for c in s:
        n = ord(c)
        o.append("\\" + c if c in '"\\' else c if 0x20 <= n < 0x7f else "\\u{%x}" % n)
    return '"' + "".join(o) + '"'
def rust_value(mod, ty, val):
    it = SCHEMA[mod][ty]
    path = f"mx_message::{mod}::{ty}"
    if it["k"] == "enum" or not val: return f"<{path} as Default>::default()"
    fs = []
    for f in it["fields"]:
        if f["f"] not in val: continue
        v = val[f["f"]]
        def one(e):
            if f["t"] == "String": r = f"{rs(e if e is not None else '')}.to_string()"
            elif f["t"] == "bool": r = "true" if e else "false"
            elif f["t"] == "f64": r = "0.0"
            else: r = rust_value(mod, f["t"], e or {})
            return f"Box::new({r})" if f.get("box") else r
        if f["c"] == "1": fs.append(f"{f['f']}: {one(v)}")
        elif f["c"] == "?": fs.append(f"{f['f']}: " + ("None" if v is None else f"Some({one(v)})"))
        elif f["c"] == "*": fs.append(f"{f['f']}: vec![{', '.join(one(e) for e in v)}]")
        else: fs.append(f"{f['f']}: " + ("None" if v is None else f"Some(vec![{', '.join(one(e) for e in v)}])"))
    return f"{path} {{ {', '.join(fs)}{', ' if fs else ''}..Default::default() }}"
