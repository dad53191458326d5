"""C06 (elements <-> fields) and C07 (code lists): the Serialize and Deserialize implementations of the message
modules, executed symbolically against an abstract serializer, deserializer and element script."""
import sys, os, json, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3
from val import *
from mir import Prog
from sym import X, State, Unsupported
import intr, strs, chk, build, vspec, bstr
from intr import OK, ERR, SOME, NONE
from chk import prove, mstr, mint, mbool
from validate import St, fields_of, locate, unbox, st_

class Roots:
    """the serde functions of a module, by type"""
    def __init__(self, prog, mod):
        self.ser, self.de, self.vis, self.fld = {}, {}, {}, {}
        for f in prog.roots:
            p = f.path
            k = f" for {mod}::"
            if k not in p: continue
            name = p.split(k, 1)[1].split(">", 1)[0]
            if p.endswith(f">::serialize") and "serde::Serialize for" in p and "deserialize" not in p: self.ser[name] = f
            elif p.endswith(">::deserialize") and not p.startswith("<"): self.de[name] = f
            elif p.endswith("__FieldVisitor as serde::de::Visitor<'de>>::visit_str"): self.fld[name] = f
            elif p.endswith("::visit_map") or p.endswith("::visit_enum"): self.vis[name] = f

def mkx(prog, hooks, **kw):
    kw.setdefault("loop_bound", 80)
    return X(prog, intr.I, hooks=hooks, **kw)
def reftext(x, st, v):
    s = intr.S(x, st, v)
    if not isinstance(s, Str) or not isinstance(s.t, str): raise Unsupported("element name that is not a constant")
    return s.t

class Job:
    def __init__(self, S, mod, name): self.S, self.D, self.tag, self.mod, self.name = S, S.d, f"{mod}::{name}", mod, name
    def ob(self, x, cs, cand):
        """obligation: cs cannot all hold; cand(model) -> candidate"""
        self.D["obligations"] += 1
        r, m = prove(x, cs)
        if r == "unsat": self.D["discharged"] += 1; return True
        if r == "unknown":
            self.D["unknown"] += 1; self.D["uncovered"].append(f"{self.tag}: solver gave up ({m})"); return None
        self.D["candidates"].append(dict(mod=self.mod, name=self.name, **cand(m))); return False
    def done(self, x):
        D = self.D
        D["queries"] += x.queries; D["solver_s"] += x.solver_time; D["stmts"] += x.stmts; D["states"] += x.nblocks; D["edges"] += x.nedges
        for a, b in x.encoded.items(): D["functions"][a] = D["functions"].get(a, 0) + b
        for a, b in x.contracts.items(): D["contracts"][a] = D["contracts"].get(a, 0) + b
        for pc, msg, where in x.unsupported: D["uncovered"].append(f"{self.tag}: {msg} at {where}")
        for pc, where in x.truncated: D["uncovered"].append(f"{self.tag}: loop bound at {where}")

# ------------------------------------------------------------------ writing
def ser_struct(prog, fn, J, it, bound):
    names = fields_of(prog, prog.types[fn.locals[1]][1])
    idx = locate(names, it["fields"])
    if idx is None: J.D["uncovered"].append(f"{J.tag}: fields do not correspond to the schema"); return
    ev, skips, head, ended = [], [], [], []
    def start(x, st, f, a, w):
        head.append((And(*st.pc), reftext(x, st, a[1]), a[2])); return OK(x.alloc(st, Opq("ser")))
    def field(x, st, f, a, w):
        ev.append((And(*st.pc), reftext(x, st, a[1]), a[2], dict(st.mem))); return OK(UNIT)
    def skip(x, st, f, a, w):
        skips.append((And(*st.pc), reftext(x, st, a[1]))); return OK(UNIT)
    def end(x, st, f, a, w): ended.append(And(*st.pc)); return OK(Opq("serialized"))
    hooks = {"unres:serde::Serializer::serialize_struct": start, "unres:serde::ser::SerializeStruct::serialize_field": field,
             "unres:serde::ser::SerializeStruct::skip_field": skip, "unres:serde::ser::SerializeStruct::end": end}
    x = mkx(prog, hooks, vec_bound=bound)
    st = State()
    selfr = x.sym(fn.locals[1], "self"); selfv = x.load(st, selfr)
    r = x.call(st, fn, [selfr, Opq("serializer")])
    if x.unsupported or not r or not head:
        J.done(x)
        if not x.unsupported: J.D["uncovered"].append(f"{J.tag}: the writer does not end as a structure")
        return
    def pres(m):
        o = {}
        for f, i in zip(it["fields"], idx):
            v = x.get1(selfv, ("f", i))
            if f["c"][0] == "?":
                v = x.expand(v) if isinstance(v, Lazy) else v
                o[f["f"]] = mint(m, v.d) == 1
        return o
    def cand(kind, detail): return lambda m: dict(kind=kind, detail=detail, present=pres(m))
    want = []
    used = set()
    for f, i in zip(it["fields"], idx):
        v = x.get1(selfv, ("f", i))
        v = x.expand(v) if isinstance(v, Lazy) else v
        g = (v.d == 1) if f["c"][0] == "?" else True
        evs = [(k, e) for k, e in enumerate(ev) if e[1] == f["x"]]
        n = z3.Sum([z3.If(zb(e[0]), 1, 0) for _, e in evs] + [z3.IntVal(0)])
        J.ob(x, [n != z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))], cand("written", f["x"]))
        for k, e in evs:
            used.add(k)
            st.mem.update({c: q for c, q in e[3].items() if c not in st.mem})
            s3 = State(e[3])
            w = x.deref_all(s3, e[2])
            alts = [v, x.deref_all(s3, v) if isinstance(v, Ref) else v]
            if f["c"][0] == "?" :
                inner = v.alts[1][0]; inner = x.expand(inner) if isinstance(inner, Lazy) else inner
                alts += [inner, x.deref_all(s3, inner)]
            if any(w is a or same(w, a) for a in alts): J.D["obligations"] += 1; J.D["discharged"] += 1
            else: J.ob(x, [e[0]], cand("written-value", f["x"]))
        if evs: want.append((f["x"], evs[0][0], g))
    for k, e in enumerate(ev):
        if k not in used: J.ob(x, [e[0]], cand("written-unknown", e[1]))
    # order of the elements
    for (a, i, ga), (b, j, gb) in zip(want, want[1:]):
        if i > j: J.ob(x, [And(ev[i][0], ev[j][0])], cand("order", f"{a} {b}"))
        else: J.D["obligations"] += 1; J.D["discharged"] += 1
    # the announced number of fields
    for g, nm, n in head:
        cnt = z3.Sum([z3.If(zb(e[0]), 1, 0) for e in ev] + [z3.IntVal(0)])
        J.ob(x, [g, zi(n) != cnt], cand("count", "announced number of elements"))
    J.ob(x, [Not(Or(*ended))], cand("end", "the structure is not ended"))
    for p in x.panics: J.ob(x, list(p.pc), cand("panic", p.msg))
    if any(f["c"][0] == "?" for f in it["fields"]):
        if prove(x, [And(*[g for _, _, g in want])])[0] == "sat": J.D["witnesses"] += 1
    if len(J.D["samples"]) < 2: J.D["samples"].append({"type": J.tag, "writes": [e[1] for e in ev]})
    J.done(x)

# ------------------------------------------------------------------ names
def name_table(prog, fn, J, pairs, nvar, strict):
    """visit_str on any text: variant i exactly for the i-th name.  pairs: [(variant index, text)]; nvar: index for other texts or None (error)"""
    hooks = {}
    hooks["unres:serde::de::Error::unknown_variant"] = hooks["unres:serde::de::Error::unknown_field"] = lambda x, st, f, a, w: Opq("unknown")
    x = mkx(prog, hooks)
    st = State()
    s = x.new_str("text")
    r = x.call(st, fn, [Opq("visitor"), Str(s)])
    if x.unsupported or not r: J.done(x); return None
    res = r[0][1]
    def disc(v):
        """(ok condition, variant term)"""
        if isinstance(v, Adt): 
            if v.v == 1: return False, -1
            w = v.f[0]
            return True, (w.v if isinstance(w, Adt) else w.d)
        if isinstance(v, Sum):
            if 0 not in v.alts: return False, -1
            w = v.alts[0][0]
            return zi(v.d) == 0, (w.v if isinstance(w, Adt) else w.d)
        raise Unsupported("result of a name lookup")
    ok, d = disc(res)
    names = [t for _, t in pairs]
    for i, t in pairs:
        J.ob(x, [s == sval(t), Not(And(ok, Eq(d, i)))], lambda m, t=t: dict(kind="name", detail=t, text=t))
    other = And(*[s != sval(t) for t in names])
    if nvar is None: J.ob(x, [other, ok], lambda m: dict(kind="name-other", detail="", text=mstr(m, s)))
    else: J.ob(x, [other, Not(And(ok, Eq(d, nvar)))], lambda m: dict(kind="name-other", detail="", text=mstr(m, s)))
    if prove(x, [other])[0] == "sat": J.D["witnesses"] += 1
    J.done(x)
    return True

# ------------------------------------------------------------------ reading
def read_script(prog, fn, J, it, names, keys, present, fvars, label, what):
    """run visit_map over a script.  keys: [term or int: schema field index, or len(fields) for an unknown element];
    returns (x, result conditions)"""
    nf = len(it["fields"])
    L = len(keys)
    def next_key(x, st, f, a, w):
        j = x.load(st, a[0])
        x.store(st, a[0], j + 1)
        if j >= L: return OK(NONE())
        k = keys[j]
        # schema index -> variant of the field enum
        d = fvars(k)
        return OK(SOME(Adt(None, d, ()) if not is_z(d) else Sum(None, d, {i: () for i in range(nf + 1)})))
    def next_value(x, st, f, a, w):
        j = x.load(st, a[0])
        return OK(j - 1)
    err = lambda tag: (lambda x, st, f, a, w: Opq("error", tag))
    def missing_field(x, st, f, a, w):
        t = f.prog.types[f.targs[-2]] if len(f.targs) > 1 else f.prog.types[f.targs[0]]
        ts = [f.prog.types[q] for q in f.targs]
        optional = any(q[0] == "adt" and q[1] == "std::option::Option" for q in ts)
        return OK(NONE()) if optional else ERR(Opq("error", "missing"))
    hooks = {"unres:serde::de::MapAccess::next_key": next_key, "unres:serde::de::MapAccess::next_value": next_value,
             "unres:serde::de::Error::duplicate_field": err("duplicate"), "unres:serde::de::Error::missing_field": err("missing"),
             "unres:serde::de::Error::custom": err("custom")}
    for p in ("serde::__private::de::missing_field", "serde::private::de::missing_field", "serde::__private228::de::missing_field"): hooks[p] = missing_field
    for f in prog.fns:
        if f.path.startswith("serde") and f.path.endswith("::missing_field"): hooks[f.path] = missing_field
    x = mkx(prog, hooks, loop_bound=max(80, L + 4))
    st = State()
    for c in what: x.axiom(c)
    r = x.call(st, fn, [Opq("visitor"), 0])
    if x.unsupported or not r: J.done(x); return None
    return x, r[0][1], r[0][0]

def de_struct(prog, R, J, it, thorough):
    name = J.name
    vis, fld, de = R.vis.get(name), R.fld.get(name), R.de.get(name)
    if vis is None or fld is None or de is None or not vis.path.endswith("visit_map"):
        J.D["uncovered"].append(f"{J.tag}: no derived reader found"); return
    nf = len(it["fields"])
    # the field list handed to the deserializer
    seen = []
    def dstruct(x, st, f, a, w):
        l = x.deref_all(st, a[2])
        seen.append((reftext(x, st, a[1]), [reftext(x, st, e) for e in l.f])); return OK(Opq("value"))
    x = mkx(prog, {"unres:serde::Deserializer::deserialize_struct": dstruct})
    x.call(State(), de, [Opq("deserializer")])
    J.done(x)
    if not seen: J.D["uncovered"].append(f"{J.tag}: the reader does not ask for a structure"); return
    spec = [f["x"] for f in it["fields"]]
    J.D["obligations"] += 1
    if set(seen[0][1]) == set(spec): J.D["discharged"] += 1
    else: J.D["candidates"].append(dict(mod=J.mod, name=name, kind="field-list", detail=str(sorted(set(seen[0][1]) ^ set(spec))), script=list(range(nf))))
    # names: which variant does each schema name select
    fl = seen[0][1]
    x = mkx(prog, {"unres:serde::de::Error::unknown_field": lambda x, st, f, a, w: Opq("unknown")})
    variant = {}
    for t in spec:
        r = x.call(State(), fld, [Opq("visitor"), Str(t)])
        v = r[0][1] if r else None
        if isinstance(v, Adt) and v.v == 0 and isinstance(v.f[0], Adt): variant[t] = v.f[0].v
    nother = None
    r = x.call(State(), fld, [Opq("visitor"), Str("\x01no such element\x01")])
    v = r[0][1] if r else None
    if isinstance(v, Adt) and v.v == 0 and isinstance(v.f[0], Adt): nother = v.f[0].v
    J.done(x)
    bad = [t for t in spec if variant.get(t, nother) == nother]
    if bad or nother is None or len(set(variant.values())) != len(variant):
        J.D["obligations"] += 1
        J.D["candidates"].append(dict(mod=J.mod, name=name, kind="name", detail=",".join(bad) or "unknown elements", script=list(range(nf)) + [nf])); return
    pairs = [(variant[t], t) for t in spec]
    name_table(prog, fld, J, pairs, nother, False)
    table = [variant[t] for t in spec] + [nother]
    def fvars(k):
        if not is_z(k): return table[k]
        r = z3.IntVal(table[-1])
        for i in range(nf): r = z3.If(k == i, z3.IntVal(table[i]), r)
        return r
    names = None
    full = 6 if not thorough else 9
    plans = []
    if nf and nf <= full:
        # any script of nf + 1 elements: every order, every subset, repetitions, unknown elements in between
        ks = [z3.Int(f"k{j}") for j in range(nf + 1)]
        plans.append(("any", ks, [And(k >= 0, k <= nf) for k in ks]))
    else:
        for lab, order in (("schema order", list(range(nf))), ("reverse order", list(range(nf))[::-1])):
            ps = [z3.Bool(f"p{j}") for j in range(nf)]
            ks = [z3.If(p, z3.IntVal(i), z3.IntVal(nf)) for p, i in zip(ps, order)]
            d = z3.Int("dup")
            plans.append((lab, ks + [d], [And(d >= 0, d <= nf)]))
    for lab, ks, ax in plans:
        res = read_script(prog, vis, J, it, names, ks, None, fvars, lab, ax)
        if res is None: continue
        x, v, st = res
        if isinstance(v, Adt): v = Sum(None, v.v, {v.v: v.f})
        if not isinstance(v, Sum): raise Unsupported("result of the reader")
        ok = zi(v.d) == 0 if is_z(v.d) else v.d == 0
        L = len(ks)
        cnt = lambda i: z3.Sum([z3.If(k == i, z3.IntVal(1), z3.IntVal(0)) for k in ks])
        dup = Or(*[cnt(i) > 1 for i in range(nf)])
        # a list element repeated in one run is one element of the script (the deserializer groups them)
        miss = Or(*[cnt(i) == 0 for i, f in enumerate(it["fields"]) if f["c"][0] != "?"])
        cand = lambda kind, detail: (lambda m: dict(kind=kind, detail=detail, script=[mint(m, k) for k in ks]))
        J.ob(x, [dup, ok], cand("repeated", lab))
        J.ob(x, [miss, ok], cand("missing", lab))
        good = [Not(dup), Not(miss)]
        J.ob(x, good + [Not(ok)], cand("refused", lab))
        if 0 in v.alts:
            sv = v.alts[0][0]
            sn = fields_of(prog, sv.ty) if isinstance(sv, Adt) and sv.ty is not None else None
            idx = locate(sn, it["fields"]) if sn else None
            if idx is None: J.D["uncovered"].append(f"{J.tag}: fields of the value read"); continue
            wrong = []
            for i, (f, p) in enumerate(zip(it["fields"], idx)):
                got = sv.f[p]
                pos = z3.IntVal(-1)
                for j in range(L - 1, -1, -1): pos = z3.If(ks[j] == i, z3.IntVal(j), pos)
                cs = []
                for g, w in cases(got):
                    if isinstance(w, Adt) and not w.f: w = -1        # absent
                    elif isinstance(w, (Adt, Sum)):
                        # Some(value) or None built by the code itself
                        t = w.alts if isinstance(w, Sum) else {w.v: w.f}
                        val = t[1][0] if 1 in t and t[1] else -1
                        if isinstance(val, V): raise Unsupported("value read")
                        w = If(Eq(w.d, 1), zi(val), z3.IntVal(-1)) if isinstance(w, Sum) else val
                    elif isinstance(w, V) or w is UNDEF: raise Unsupported("value read")
                    cs.append(And(g, zi(w) != pos))
                wrong.append((f, Or(*cs)))
            # one query for all fields; split only when it fails
            J.D["obligations"] += len(wrong)
            rr, m = prove(x, [*good, ok, Or(*[c for _, c in wrong])])
            if rr == "unsat": J.D["discharged"] += len(wrong)
            else:
                J.D["obligations"] -= len(wrong)
                for f, c in wrong: J.ob(x, [*good, ok, c], cand("read-value", f["x"]))
        for p in x.panics: J.ob(x, list(p.pc), cand("panic", p.msg))
        if prove(x, good + [ok])[0] == "sat": J.D["witnesses"] += 1
        J.D["scripts"] = J.D.get("scripts", 0) + 1
        J.done(x)

# ------------------------------------------------------------------ code lists
def enum_one(prog, R, J, it):
    name = J.name
    codes = it["codes"]
    ser, vis, fld = R.ser.get(name), R.vis.get(name), R.fld.get(name)
    if not ser or not vis or not fld: J.D["uncovered"].append(f"{J.tag}: no derived reader or writer"); return
    ty = prog.types[ser.locals[1]][1]
    vnames = [v[0] for v in prog.types[ty][4]]
    if sorted(vnames) != sorted(v for v, _ in codes):
        # same number and codes decide: variants are matched by their written code below
        pass
    # writing
    ev = []
    def unit(x, st, f, a, w):
        ev.append((And(*st.pc), a[1:])); 
        return OK(Opq("serialized"))
    x = mkx(prog, {"unres:serde::Serializer::serialize_unit_variant": unit, "unres:serde::Serializer::serialize_str": unit})
    st = State(); selfr = x.sym(ser.locals[1], "self"); selfv = x.load(st, selfr)
    d = selfv.d if isinstance(selfv, Sum) else selfv.v
    x.call(st, ser, [selfr, Opq("serializer")])
    J.done(x)
    if x.unsupported: return
    by = {vnames.index(v): c for v, c in codes if v in vnames}
    if len(by) != len(vnames) or len(by) != len(codes):
        J.D["obligations"] += 1
        J.D["candidates"].append(dict(mod=J.mod, name=name, kind="codes", detail=f"variants {sorted(set(vnames) ^ set(v for v, _ in codes))}", text=codes[0][1])); return
    def written(i):
        out = []
        for g, a in ev:
            t = intr.S(x, st, a[-1])
            for gg, s in cases(t, g): out.append((gg, s.t))
        return out
    for i, c in by.items():
        w = written(i)
        okc = Or(*[And(g, Eq(st_(t) if isinstance(t, str) else t, sval(c))) for g, t in w])
        n = z3.Sum([z3.If(zb(g), 1, 0) for g, _ in w] + [z3.IntVal(0)])
        J.ob(x, [Eq(d, i), Not(okc)], lambda m, i=i, c=c: dict(kind="code-written", detail=c, variant=vnames[i], text=c))
    # distinct codes
    J.D["obligations"] += 1
    if len(set(by.values())) == len(by): J.D["discharged"] += 1
    # reading: text -> field variant
    x = mkx(prog, {"unres:serde::de::Error::unknown_variant": lambda x, st, f, a, w: Opq("unknown")})
    fv = {}
    for i, c in by.items():
        r = x.call(State(), fld, [Opq("visitor"), Str(c)])
        v = r[0][1] if r else None
        if isinstance(v, Adt) and v.v == 0 and isinstance(v.f[0], Adt): fv[i] = v.f[0].v
        else: 
            J.D["obligations"] += 1
            J.D["candidates"].append(dict(mod=J.mod, name=name, kind="code-refused", detail=c, variant=vnames[i], text=c))
    J.done(x)
    if len(fv) != len(by): return
    name_table(prog, fld, J, [(fv[i], by[i]) for i in by], None, True)
    # field variant -> value
    kd = z3.Int("code")
    def variant(x, st, f, a, w): return OK(Tup([Sum(None, kd, {i: () for i in range(len(fv))}), Opq("access")]))
    x = mkx(prog, {"unres:serde::de::EnumAccess::variant": variant, "unres:serde::de::VariantAccess::unit_variant": lambda x, st, f, a, w: OK(UNIT)})
    x.axiom(And(kd >= 0, kd < len(vnames)))
    r = x.call(State(), vis, [Opq("visitor"), Opq("data")])
    if not x.unsupported and r:
        v = r[0][1]
        if isinstance(v, Adt): v = Sum(None, v.v, {v.v: v.f})
        ok = Eq(v.d, 0)
        w = v.alts[0][0] if 0 in v.alts else None
        if w is not None:
            wd = w.d if isinstance(w, Sum) else w.v
            for i in by:
                J.ob(x, [kd == fv[i], Not(And(ok, Eq(wd, i)))], lambda m, i=i: dict(kind="code-read", detail=by[i], variant=vnames[i], text=by[i]))
    if len(J.D["samples"]) < 2: J.D["samples"].append({"type": J.tag, "codes": [c for _, c in codes][:12]})
    J.done(x)

def work(job):
    mode, path, thorough = job
    S = St()
    S.d["scripts"] = 0
    try:
        prog = Prog(path)
        base = os.path.basename(path)[2:-5]
        mod = base.replace(".", "::", 1)
        R = Roots(prog, mod)
        if mod not in vspec.SCHEMA:
            S.d["uncovered"].append(f"{mod}: not in the schema table"); return S.d
        for name, it in vspec.SCHEMA[mod].items():
            J = Job(S, mod, name)
            try:
                if mode == "C06" and it["k"] == "struct":
                    if name in R.ser: ser_struct(prog, R.ser[name], J, it, 2)
                    else: S.d["uncovered"].append(f"{mod}::{name}: no derived writer found")
                    de_struct(prog, R, J, it, thorough)
                elif mode == "C07" and it["k"] == "enum": enum_one(prog, R, J, it)
            except Unsupported as e: S.d["uncovered"].append(f"{mod}::{name}: {e}")
    except Exception:
        import traceback
        S.d["uncovered"].append(f"{path}: {traceback.format_exc()[-700:]}")
    return S.d

# ------------------------------------------------------------------ native confirmation
def sample(mod, f, tagtext, depth=0):
    """(json text, value tree) of one field's content, recognisable by tagtext"""
    def one(k):
        if f["t"] == "String": return json.dumps(f"{tagtext}{k}"), f"{tagtext}{k}"
        if f["t"] == "bool": return "true", True
        if f["t"] == "f64": return "0.0", 0.0
        it = vspec.SCHEMA[mod][f["t"]]
        if it["k"] == "enum": return json.dumps(None), None
        parts, val = [], {}
        for g in it["fields"]:
            if g["c"][0] == "?": continue
            j, v = sample(mod, g, tagtext, depth + 1)
            parts.append(json.dumps(g["x"]) + ":" + j); val[g["f"]] = v
        # optional text fields make the content recognisable
        for g in it["fields"]:
            if g["c"] == "?" and g["t"] == "String": 
                parts.append(json.dumps(g["x"]) + ":" + json.dumps(tagtext)); val[g["f"]] = tagtext; break
        return "{" + ",".join(parts) + "}", val
    if "*" in f["c"]:
        a = [one(0)]
        return "[" + ",".join(j for j, _ in a) + "]", [v for _, v in a]
    return one("")
def rs_value(mod, ty, val):
    """Rust expression; enum values are left to a default (None)"""
    return vspec.rust_value(mod, ty, val)
def enum_code(mod, t, which=0):
    return vspec.SCHEMA[mod][t]["codes"][which]
def sample_full(mod, f, tag):
    """as sample, with enumerations given their default code"""
    return sample(mod, f, tag)

def confirm(C, cands):
    import collections
    per = collections.Counter(); sel = []
    for c in cands:
        k = (c["mod"], c["name"])
        if per[k] < 3 and len(sel) < 48: per[k] += 1; sel.append(c)
    body, exp = [], []
    for i, c in enumerate(sel):
        mod, name = c["mod"], c["name"]; it = vspec.SCHEMA[mod][name]
        T = f"mx_message::{mod}::{name}"
        if it["k"] == "enum":
            arms = "".join(f"println!(\"{{}}\", serde_json::json!([{i}, \"w\", {json.dumps(v)}, serde_json::to_value(&{T}::{v}).ok()]));" for v, _ in it["codes"])
            arms += "".join(f"println!(\"{{}}\", serde_json::json!([{i}, \"r\", {json.dumps(code)}, serde_json::from_value::<{T}>(serde_json::json!({json.dumps(code)})).ok() == Some({T}::{v})]));" for v, code in it["codes"])
            tx = vspec.rs(c.get("text", ""))
            arms += f"println!(\"{{}}\", serde_json::json!([{i}, \"x\", {tx}, serde_json::from_value::<{T}>(serde_json::Value::String({tx}.to_string())).is_ok()]));"
            body.append(f"fn t{i}() {{ {arms} }}")
            continue
        if "present" in c:
            val = {}
            for f in it["fields"]:
                if c["present"].get(f["f"], True):
                    if f["t"] not in vspec.PRIM and vspec.SCHEMA[mod][f["t"]]["k"] == "enum": val[f["f"]] = [{}] if "*" in f["c"] else {}
                    else: val[f["f"]] = sample(mod, f, "T" + f["f"])[1]
                else: val[f["f"]] = None
            body.append(f"fn t{i}() {{ let v = {rs_value(mod, name, val)}; println!(\"{{}}\", serde_json::json!([{i}, \"s\", serde_json::to_string(&v).ok(), quick_xml::se::to_string(&v).ok()])); }}")
            c["_val"] = val
        else:
            script = c.get("script") or [mint_name(it, c.get("text"))]
            if c["kind"] == "name-other": script = [k for k in range(len(it["fields"]))]; c["extra"] = c["text"]
            parts, val, cnt = [], {}, collections.Counter()
            for j, k in enumerate(script):
                if k >= len(it["fields"]): parts.append(f'"noSuch{j}":"x"'); continue
                f = it["fields"][k]; cnt[k] += 1
                js, v = sample(mod, f, f"V{j}_")
                if f["t"] not in vspec.PRIM and vspec.SCHEMA[mod][f["t"]]["k"] == "enum":
                    js = "@ENUM@"; v = {}
                    js = f"@{f['t']}@"; js = "[" + js + "]" if "*" in f["c"] else js; v = [{}] if "*" in f["c"] else {}
                parts.append(json.dumps(f["x"]) + ":" + js); val[f["f"]] = v
            if c.get("extra"): parts.append(json.dumps(c["extra"]) + ':"x"')
            text = "{" + ",".join(parts) + "}"
            dup = any(n > 1 for n in cnt.values()); miss = any(cnt[k] == 0 for k, f in enumerate(it["fields"]) if f["c"][0] != "?")
            for k, f in enumerate(it["fields"]):
                if f["f"] not in val: val[f["f"]] = None if f["c"][0] == "?" else ([] if "*" in f["c"] else ("" if f["t"] == "String" else {}))
            ens = sorted({f["t"] for f in all_enums(mod, name)})
            rep = "".join(f".replace({vspec.rs('@' + e + '@')}, &serde_json::to_string(&<mx_message::{mod}::{e} as Default>::default()).unwrap())" for e in ens)
            c["_expect"] = "err" if dup or miss else "ok"
            cmp = f"r.ok() == Some({rs_value(mod, name, val)})" if not (dup or miss) else "r.is_err()"
            body.append(f"fn t{i}() {{ let text = {vspec.rs(text)}.to_string(){rep}; let r = serde_json::from_str::<{T}>(&text); let e = r.as_ref().err().map(|e| e.to_string()); println!(\"{{}}\", serde_json::json!([{i}, \"d\", {cmp}, e, text])); }}")
    src = "\n".join(body) + "\nfn main() {\n    let ts: Vec<fn()> = vec![" + ", ".join(f"t{i}" for i in range(len(sel))) + """];
    for (i, t) in ts.into_iter().enumerate() {
        if std::panic::catch_unwind(t).is_err() { println!("{}", serde_json::json!([i, "panic"])); }
    }
}
"""
    rc, out, err = chk.native(src)
    got = collections.defaultdict(list)
    for l in out.splitlines():
        r = json.loads(l); got[r[0]].append(r[1:])
    for i, c in enumerate(sel):
        it = vspec.SCHEMA[c["mod"]][c["name"]]
        bad = None
        for r in got[i]:
            if r[0] == "panic": bad = "the real code panics"
            elif r[0] == "w":
                code = dict(it["codes"]).get(r[1])
                if r[2] != code: bad = f"{r[1]} is written as {r[2]!r}, its code is {code!r}"
            elif r[0] == "r":
                if not r[2]: bad = f"code {r[1]!r} is not read as its value"
            elif r[0] == "x":
                if r[2] != (r[1] in [cd for _, cd in it["codes"]]): bad = f"text {r[1]!r}: accepted={r[2]}"
            elif r[0] == "s":
                keys = [k for k, _ in json.loads(r[1], object_pairs_hook=lambda p: p)] if r[1] else None
                want = [f["x"] for f in it["fields"] if c["present"].get(f["f"], True)]
                if keys is None: bad = "the value cannot be written as JSON"
                elif keys != want: bad = f"written elements {keys}, expected {want}"
                else:
                    pairs = json.loads(r[1], object_pairs_hook=lambda p: p)
                    for (k, v), f in zip(pairs, [f for f in it["fields"] if c["present"].get(f["f"], True)]):
                        s = json.dumps(v)
                        if "T" in s and f"T{f['f']}" not in s and any(f"T{g['f']}" in s for g in it["fields"] if g is not f): bad = f"element {k} holds the content of another field: {s[:200]}"
                    if bad is None and c["kind"] == "count": bad = None
            elif r[0] == "d":
                if not r[1]: bad = f"reading {r[3]!r}: expected {c['_expect']}, got " + (f"error {r[2]}" if r[2] else "another value")
        ident = {"type": f"{c['mod']}::{c['name']}", "kind": c["kind"], "detail": c["detail"]}
        if bad: C.violation(f"{c['mod'].replace('::', '.')}.{c['name']}-{i}", json.dumps({**ident, "observed": bad}, indent=1) + "\n\n// program:\n" + src, {**ident, "observed": bad[:300]})
        else: C.unconfirmed.append(str(ident))
def mint_name(it, t):
    for i, f in enumerate(it["fields"]):
        if f["x"] == t: return i
    return 0
def all_enums(mod, name):
    seen, out, todo = set(), [], [name]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        for f in vspec.SCHEMA[mod][n].get("fields", []):
            if f["t"] in vspec.PRIM: continue
            if vspec.SCHEMA[mod][f["t"]]["k"] == "enum": out.append(f)
            else: todo.append(f["t"])
    return out

def main(mode):
    C = chk.Check(mode)
    out, t = build.dump(["s"], shards=6)
    C.cov["dump_s"] = round(t, 1)
    C.bounds = {"elements per script": "number of fields + 1", "orders": f"all for types with up to {9 if C.thorough else 6} fields, schema and reverse order for larger ones", "texts": "unbounded"} if mode == "C06" else {"texts": "unbounded"}
    C.assumptions = ["spec/schema.json states names, order, cardinality and codes", "the serde data model contract: quick-xml and serde_json call the visitors with the element names and group adjacent list elements", "no error from the underlying writer or reader while the mapping is compared"]
    files = sorted(glob.glob(out + "/s.*.json"), key=lambda p: -os.path.getsize(p))
    if not files: raise SystemExit("no modules dumped")
    have = {os.path.basename(f)[2:-5].replace(".", "::", 1) for f in files}
    for m in vspec.SCHEMA:
        if m not in have: C.uncovered.append(f"{m}: module not found in the tree")
    n = 0
    for r in chk.pool_map(work, [(mode, f, C.thorough) for f in files]): C.absorb(r); n += r.get("scripts", 0)
    C.cov["types"] = sum(1 for m in vspec.SCHEMA.values() for i in m.values() if i["k"] == ("struct" if mode == "C06" else "enum"))
    if mode == "C06": C.cov["element_scripts"] = n
    if C.candidates: confirm(C, C.candidates)
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
