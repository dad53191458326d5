"""C01 (facets), C02 (traversal and paths), C03 (fail-fast): every Validate impl of the message modules,
executed symbolically with a symbolic value, path and configuration, against the schema table."""
import sys, os, json, glob, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3
from val import *
from mir import Prog
from sym import X, State, Unsupported
import intr, strs, chk, build, vspec, bstr
from chk import prove, mstr, mint, mbool

VAL = "as validation::Validate>::validate"
class St:
    """what a worker measures"""
    def __init__(self): self.d = dict(obligations=0, discharged=0, unknown=0, queries=0, solver_s=0.0, witnesses=0, stmts=0, states=0, edges=0, functions={}, contracts={}, candidates=[], uncovered=[], samples=[])

def fields_of(prog, ty):
    t = prog.types[ty]
    return [n for n, _ in t[4][0][2]]
def struct_ty(prog, fn):
    t = prog.types[fn.locals[1]]
    return t[1]
def locate(names, spec):
    """index of each schema field in the Rust struct: by name, else by position"""
    if all(f["f"] in names for f in spec): return [names.index(f["f"]) for f in spec]
    if len(names) == len(spec): return list(range(len(spec)))
    return None

def leaves(x, st, selfv, spec, idx):
    """[(field, guard, value)] for every field occurrence; guard: the occurrence is present"""
    out = []
    for f, i in zip(spec, idx):
        v = x.get1(selfv, ("f", i))
        if isinstance(v, Lazy): v = x.expand(v)
        g = True
        if f["c"][0] == "?":
            d = v.d if isinstance(v, Sum) else None
            if d is None: raise Unsupported("optional field without a symbolic variant")
            g = d == 1
            v = v.alts[1][0]
            if isinstance(v, Lazy): v = x.expand(v)
        if "*" in f["c"]:
            for gg, e in v.e:
                if isinstance(e, Lazy): e = x.expand(e)
                out.append((f, And(g, gg), e))
        else: out.append((f, g, v))
    return out
def unbox(x, st, v):
    for _ in range(4):
        if isinstance(v, Lazy): v = x.expand(v)
        if isinstance(v, Ref): v = x.load(st, v)
        else: break
    return v
def path_term(P, name):
    return z3.If(P == sval(""), sval(name), z3.Concat(P, sval("." + name)))

def err_fields(prog):
    for t in prog.types:
        if t[0] == "adt" and t[1] == "error::ValidationError": return [n for n, _ in t[4][0][2]]
    return None
def err_parts(x, v, ef):
    """(code, field, path) of an error value; the latter two Option payloads or None"""
    g = lambda n: v.f[ef.index(n)]
    def o(w):
        if isinstance(w, Lazy): w = x.expand(w)
        if isinstance(w, Adt): return w.f[0] if w.v == 1 else None
        return w
    return g("code"), o(g("field")), o(g("path"))

def run_one(prog, fn, mod, name, it, mode, bound, S, roots):
    """one struct.  mode: C01 | C02 | C03"""
    D = S.d
    ty = struct_ty(prog, fn)
    names = fields_of(prog, ty)
    idx = locate(names, it["fields"])
    if idx is None:
        D["uncovered"].append(f"{mod}::{name}: fields do not correspond to the schema"); return
    events = []
    hooks = {}
    bads = {}
    def child(x, st, f, a, w):
        v = x.deref_all(st, a[0])
        events.append((And(*st.pc), f.path, v, a[1], a[2], a[3]))
        col = a[3]
        if mode == "C03":
            c = x.load(st, col)
            empty = intr.is_empty(x, c.f[ci])
            b = bads.get(id(v))
            if b is None:
                b = bads[id(v)] = (x.fresh("bool", "childbad"), v)
            g = And(empty, b[0])
            vec = c.f[ci]
            nv = Vec(vec.e + ((g, Opq("childerr", id(v), f.path)),), False)
            nf = list(c.f); nf[ci] = nv
            nf[1 - ci] = Or(g, c.f[1 - ci])
            x.store(st, col, Adt(c.ty, c.v, nf))
        elif mode == "C01":
            c = x.load(st, col)
            vec = c.f[ci]
            b = x.fresh("bool", "childerrs")
            nf = list(c.f); nf[ci] = Vec(vec.e + ((b, Opq("childerr", id(v), f.path)),), False)
            x.store(st, col, Adt(c.ty, c.v, nf))
        return UNIT
    for g in roots:
        if g.path.endswith(VAL) and g is not fn: hooks[g.path] = child
    # a call of the type's own validate (recursive types) is also a child
    ecol = [t for t in prog.types if t[0] == "adt" and t[1] == "parse_result::ErrorCollector"]
    ecfg = [(i, t) for i, t in enumerate(prog.types) if t[0] == "adt" and t[1] == "parse_result::ParserConfig"]
    cn = [n for n, _ in ecol[0][4][0][2]] if ecol else ["errors", "has_critical_errors"]
    if sorted(cn) != ["errors", "has_critical_errors"]: raise Unsupported("error collector layout")
    ci = cn.index("errors")
    x = X(prog, intr.I, hooks=hooks, vec_bound=bound, loop_bound=max(64, bound * 4))
    st = State()
    selfr = x.sym(fn.locals[1], "self")
    selfv = x.load(st, selfr)
    P = x.new_str("P")
    opt, allc = z3.Bool("cfg.opt"), z3.Bool("cfg.all")
    cfn = [n for n, _ in ecfg[0][1][4][0][2]] if ecfg else ["fail_fast", "validate_optional_fields", "collect_all_errors"]
    vals = {"fail_fast": mode == "C03", "validate_optional_fields": opt, "collect_all_errors": allc}
    ff = z3.Bool("cfg.ff")
    if mode == "C02": vals["fail_fast"] = ff
    cfg = x.alloc(st, Adt(ecfg[0][0] if ecfg else None, 0, [vals.get(n, z3.Bool("cfg." + n)) for n in cfn]))
    pre = z3.Bool("pre")
    errs0 = Vec([(pre, Opq("pre"))]) if mode == "C03" else Vec(())
    precrit = z3.Bool("precrit")
    flds = [None, None]; flds[ci] = errs0; flds[1 - ci] = precrit if mode == "C03" else False
    if mode == "C03": x.axiom(z3.Implies(precrit, pre))
    col = x.alloc(st, Adt(None, 0, flds))
    hooks.pop(fn.path, None)
    myself = fn.path
    # recursion into the same type goes through the hook table only after entry
    entered = [False]
    def selfhook(x_, st_, f_, a_, w_):
        if not entered[0]:
            entered[0] = True
            return x_.run(st_, f_, a_)
        return child(x_, st_, f_, a_, w_)
    hooks[myself] = selfhook
    r = x.call(st, fn, [selfr, Str(P), cfg, col])
    tag = f"{mod}::{name}"
    for pc, msg, where in x.unsupported: D["uncovered"].append(f"{tag}: {msg} at {where}")
    for pc, where in x.truncated: D["uncovered"].append(f"{tag}: loop bound at {where}")
    L = leaves(x, st, selfv, it["fields"], idx)
    ctx = dict(mod=mod, name=name, mode=mode)
    def candidate(m, kind, detail):
        D["candidates"].append(dict(ctx, kind=kind, detail=detail, path=mstr(m, P), opt=mbool(m, opt), all=mbool(m, allc), ff=(True if mode == "C03" else mbool(m, ff) if mode == "C02" else False),
                                    pre=mbool(m, pre) if mode == "C03" else False, val=concretize(x, st, m, selfv, it, idx, mod, bads, mode)))
    def ob(cs, kind, detail):
        """obligation: cs cannot all hold"""
        D["obligations"] += 1
        r, m = prove(x, cs)
        if r == "unsat": D["discharged"] += 1; return True
        if r == "unknown": D["unknown"] += 1; D["uncovered"].append(f"{tag}: {kind} {detail}: solver gave up ({m})"); return None
        candidate(m, kind, detail); return False
    for p in x.panics:
        ob(list(p.pc), "panic", f"{p.msg} at {p.where}")
    if not r:
        if not x.unsupported: D["uncovered"].append(f"{tag}: no result")
        return
    st2 = r[0][0]
    base = list(st2.pc)
    c = x.deref_all(st2, col)
    # the spec side
    specerrs = []       # (guard, code, field, path term)
    for f, g, v in L:
        if f["t"] != "String": continue
        v = unbox(x, st, v)
        pt = path_term(P, f["x"])
        s = v.t
        n = z3.Length(s)
        if "min" in f: specerrs.append((And(g, n < f["min"]), 1001, f["x"], pt))
        if "max" in f: specerrs.append((And(g, n > f["max"]), 1002, f["x"], pt))
        if "pat" in f:
            R = strs.trimmed_re(strs.rx_re(strs.parse_rx(f["pat"]), False))
            specerrs.append((And(g, Not(z3.InRe(s, R))), 1005, f["x"], pt))
    children = []       # (guard, value, field)
    for f, g, v in L:
        if f["t"] in vspec.PRIM: continue
        gg = And(g, opt) if f["c"][0] == "?" else g
        children.append((gg, unbox(x, st, v), f))
    vec = c.f[ci]
    if isinstance(vec, Ite): raise Unsupported("guarded error list")
    ef = err_fields(prog) or ["code", "message", "field", "path"]
    code = []           # (guard, code, field, path)
    others = []
    for g, e in vec.e:
        if isinstance(e, Adt): code.append((g, *err_parts(x, e, ef)))
        elif isinstance(e, Opq) and e.tag in ("childerr", "pre"): others.append((g, e))
        elif isinstance(e, Ite):
            for gg, ee in cases(e, g):
                if isinstance(ee, Adt): code.append((gg, *err_parts(x, ee, ef)))
                else: others.append((gg, ee))
        else: raise Unsupported(f"error value {type(e).__name__}")
    if mode == "C01":
        groups = {}
        general = False
        for g, cc, ff_, pp in code:
            if is_z(cc) or not (isinstance(ff_, Str) and isinstance(ff_.t, str)) or not isinstance(pp, Str): general = True; break
            groups.setdefault((cc, ff_.t), ([], []))[0].append((g, pp))
        if general: raise Unsupported("error codes or fields that are not constants")
        for g, cc, fx, pt in specerrs: groups.setdefault((cc, fx), ([], []))[1].append((g, pt))
        for (cc, fx), (a, b) in groups.items():
            ok = len(a) == len(b)
            if ok:
                for (ga, pa), (gb, pb) in zip(a, b):
                    if not (is_z(ga) and is_z(gb) and ga.eq(gb)):
                        r1 = ob(base + [zb(ga) != zb(gb)], "facet", f"{fx} {cc}") if len(a) == 1 else prove(x, base + [zb(ga) != zb(gb)])[0] == "unsat"
                        if len(a) > 1:
                            if not r1: ok = False; break
                            D["obligations"] += 1; D["discharged"] += 1
                    else: D["obligations"] += 1; D["discharged"] += 1
                    if not (is_z(pa.t) and pa.t.eq(pb)):
                        pe = Eq(st_(pa.t), pb)
                        ob(base + [ga, Not(pe)], "path", f"{fx} {cc}")
            if not ok:
                # compare the number of reports, and every path
                na = z3.Sum([z3.If(zb(g), 1, 0) for g, _ in a] + [z3.IntVal(0)])
                nb = z3.Sum([z3.If(zb(g), 1, 0) for g, _ in b] + [z3.IntVal(0)])
                ob(base + [na != nb], "facet", f"{fx} {cc}")
                want = path_term(P, fx)
                for g, pp in a: ob(base + [g, Not(Eq(st_(pp.t), want))], "path", f"{fx} {cc}")
        # vacuity witness: some error can be reported, and none can
        if specerrs:
            if prove(x, base + [Or(*[g for g, *_ in specerrs])])[0] == "sat": D["witnesses"] += 1
        if len(D["samples"]) < 3 and specerrs:
            r1, m = prove(x, base + [specerrs[-1][0]])
            if r1 == "sat": D["samples"].append({"type": tag, "violates": [specerrs[-1][1], specerrs[-1][2]], "value": concretize(x, st, m, selfv, it, idx, mod, bads, mode)})
    elif mode == "C02":
        used = set()
        for gg, v, f in children:
            if not vspec.has_rules(mod, f["t"]): 
                for k, e in enumerate(events):
                    if e[2] is v: used.add(k)
                continue
            evs = [(k, e) for k, e in enumerate(events) if e[2] is v]
            for k, _ in evs: used.add(k)
            n = z3.Sum([z3.If(zb(e[0]), 1, 0) for _, e in evs] + [z3.IntVal(0)])
            ob([n != z3.If(zb(gg), z3.IntVal(1), z3.IntVal(0))], "visit", f["x"])
            want = path_term(P, f["x"])
            for _, e in evs:
                pp = e[3] if isinstance(e[3], Str) else intr.S(x, st2, e[3])
                if isinstance(pp, Ite): raise Unsupported("guarded path")
                if not (is_z(pp.t) and pp.t.eq(want)): ob([e[0], Not(Eq(st_(pp.t), want))], "path", f["x"])
                else: D["obligations"] += 1; D["discharged"] += 1
                # the configuration and the collector are handed through
                if not (isinstance(e[4], Ref) and e[4] == cfg):
                    cv = x.deref_all(st2, e[4])
                    if isinstance(cv, Adt):
                        for n_, w in zip(cfn, cv.f):
                            ob([e[0], Not(Eq(w, vals[n_])) if n_ in vals else False], "config", f["x"])
                if not (isinstance(e[5], Ref) and e[5] == col): ob([e[0]], "collector", f["x"])
            if prove(x, [gg])[0] == "sat": D["witnesses"] += 1
        for k, e in enumerate(events):
            if k not in used:
                if not any(e[2] is v for _, v, _ in children):
                    D["uncovered"].append(f"{tag}: validates something that is not a component ({e[1]})")
        # no reports other than those about own text fields: left to C01
        if len(D["samples"]) < 3 and children:
            D["samples"].append({"type": tag, "components": [f["x"] for _, _, f in children], "child calls": len(events)})
    else:
        crit = c.f[1 - ci]
        entries = [(g, "own", cc, ff_, pp) for g, cc, ff_, pp in code] + [(g, "child" if e.tag == "childerr" else "pre", e, None, None) for g, e in others]
        cnt = z3.Sum([z3.If(zb(g), 1, 0) for g, *_ in entries] + [z3.IntVal(0)])
        anybad = Or(*[g for g, *_ in specerrs], *[And(g, bads[id(v)][0]) for g, v, _ in children if id(v) in bads])
        missing = [(g, v) for g, v, f in children if id(v) not in bads and vspec.has_rules(mod, f["t"])]
        ob(base + [pre, cnt != 1], "kept", "an earlier error must stay the only one")
        ob(base + [Not(pre), cnt > 1], "more-than-one", "")
        ob(base + [Not(pre), anybad, cnt == 0], "lost", "a failing field is not reported")
        ob(base + [Not(pre), Not(Or(anybad)), cnt > 0], "spurious", "an error without a failing field")
        ob(base + [Not(pre), cnt > 0, Not(crit)], "critical", "the error is not marked critical")
        ob(base + [Not(pre), cnt == 0, crit], "critical", "marked critical without an error")
        for g, cc, ff_, pp in code:
            alts = [And(gs, Eq(cc, c2), Eq(st_(ff_.t), fx) if ff_ is not None else False, Eq(st_(pp.t), pt) if pp is not None else False) for gs, c2, fx, pt in specerrs]
            ob(base + [Not(pre), g, Not(Or(*alts))], "wrong-error", f"{cc} {ff_}")
        if missing: D["uncovered"] += [f"{tag}: a component is never validated in fail-fast mode (see C02)"]
        if specerrs or children:
            if prove(x, base + [Not(pre), cnt == 1])[0] == "sat": D["witnesses"] += 1
        if len(D["samples"]) < 3 and specerrs: D["samples"].append({"type": tag, "possible reports": len(entries), "claim": "at most one, critical, and a true one"})
    D["queries"] += x.queries; D["solver_s"] += x.solver_time; D["stmts"] += x.stmts; D["states"] += x.nblocks; D["edges"] += x.nedges
    for a, b in x.encoded.items(): D["functions"][a] = D["functions"].get(a, 0) + b
    for a, b in x.contracts.items(): D["contracts"][a] = D["contracts"].get(a, 0) + b
def st_(t): return sval(t) if isinstance(t, str) else t

def concretize(x, st, m, selfv, it, idx, mod, bads, mode):
    """value tree of the model (own fields; components are made invalid where the model says so)"""
    val = {}
    for f, i in zip(it["fields"], idx):
        v = x.get1(selfv, ("f", i))
        if isinstance(v, Lazy): v = x.expand(v)
        def one(e):
            e = unbox(x, st, e)
            if f["t"] == "String":
                t = e.t
                return mstr(m, t) if is_z(t) else t
            if f["t"] == "bool": return mbool(m, e)
            if f["t"] == "f64": return 0.0
            b = vspec.bad_in(mod, f["t"])
            if mode == "C03":
                k = bads.get(id(e))
                return b if b and (k is None or mbool(m, k[0])) else vspec.good(mod, f["t"])
            return b or {}
        if f["c"][0] == "?":
            if mint(m, v.d) == 0: val[f["f"]] = None; continue
            v = v.alts[1][0]
            if isinstance(v, Lazy): v = x.expand(v)
        if "*" in f["c"]:
            val[f["f"]] = [one(e) for g, e in v.e if mbool(m, g)]
        else: val[f["f"]] = one(v)
    return val

def work(job):
    mode, path, bound = job
    S = St()
    try:
        prog = Prog(path)
        base = os.path.basename(path)[2:-5]
        part, m = base.split(".", 1)
        mod = f"{part}::{m}"
        roots = {f.path: f for f in prog.roots}
        if mod not in vspec.SCHEMA:
            S.d["uncovered"].append(f"{mod}: not in the schema table"); return S.d
        for name, it in vspec.SCHEMA[mod].items():
            if it["k"] != "struct": continue
            fn = roots.get(f"<{mod}::{name} {VAL}")
            if fn is None or not fn.body:
                S.d["uncovered"].append(f"{mod}::{name}: no Validate implementation in the dump"); continue
            try:
                run_one(prog, fn, mod, name, it, mode, bound, S, [f for f in prog.fns if f.path.endswith(VAL)])
            except Unsupported as e:
                S.d["uncovered"].append(f"{mod}::{name}: {e}")
    except Exception as e:
        import traceback
        S.d["uncovered"].append(f"{path}: {traceback.format_exc()[-600:]}")
    return S.d

# ------------------------------------------------------------------ native confirmation
def confirm(C, cands):
    import collections
    per = collections.Counter(); sel = []
    for c in cands:
        k = (c["mod"], c["name"])
        if per[k] < 2 and len(sel) < 48: per[k] += 1; sel.append(c)
    body = []
    for i, c in enumerate(sel):
        pre = 'col.add_error(mx_message::error::ValidationError::new(1, "pre".to_string()));' if c["pre"] else ""
        body.append(f"""
fn t{i}() {{
    let v = {vspec.rust_value(c['mod'], c['name'], c['val'])};
    let cfg = ParserConfig {{ fail_fast: {str(c['ff']).lower()}, validate_optional_fields: {str(c['opt']).lower()}, collect_all_errors: {str(c['all']).lower()} }};
    let mut col = ErrorCollector::new();
    {pre}
    v.validate({vspec.rs(c['path'])}, &cfg, &mut col);
    let crit = col.has_critical_errors();
    for e in col.errors() {{ println!("{{}}", serde_json::json!([{i}, e.code, e.field, e.path])); }}
    println!("{{}}", serde_json::json!([{i}, "crit", crit]));
}}""")
    src = """use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
""" + "\n".join(body) + "\nfn main() {\n    let ts: Vec<fn()> = vec![" + ", ".join(f"t{i}" for i in range(len(sel))) + """];
    for (i, t) in ts.into_iter().enumerate() {
        if std::panic::catch_unwind(t).is_err() { println!("{}", serde_json::json!([i, "panic"])); }
    }
}
"""
    rc, out, err = chk.native(src)
    got = {i: {"errs": [], "crit": None, "panic": False} for i in range(len(sel))}
    for l in out.splitlines():
        r = json.loads(l)
        if r[1] == "crit": got[r[0]]["crit"] = r[2]
        elif r[1] == "panic": got[r[0]]["panic"] = True
        else: got[r[0]]["errs"].append((r[1], r[2], r[3]))
    for i, c in enumerate(sel):
        full = vspec.expected(c["mod"], c["name"], c["val"], c["path"], c["opt"])
        g = got[i]
        if g["panic"]: bad = "the real code panics"
        elif c["pre"]:
            bad = None if g["errs"] == [(1, None, None)] else f"reports {g['errs']} after an earlier error"
        elif c["ff"]:
            bad = None
            if len(g["errs"]) > 1: bad = f"fail-fast reports {len(g['errs'])} errors: {g['errs'][:6]}"
            elif bool(g["errs"]) != bool(full): bad = f"fail-fast reports {g['errs']}, the full list is {full[:6]}"
            elif g["errs"] and g["errs"][0] not in full: bad = f"fail-fast reports {g['errs']}, not one of {full[:6]}"
            elif g["crit"] != bool(g["errs"]): bad = "critical flag is wrong"
        else:
            bad = None if sorted(g["errs"], key=str) == sorted(full, key=str) else f"reports {sorted(set(g['errs']) - set(full), key=str)[:6]} too much and misses {sorted(set(full) - set(g['errs']), key=str)[:6]} (or repeats)"
        ident = {"type": f"{c['mod']}::{c['name']}", "kind": c["kind"], "detail": c["detail"]}
        if bad:
            C.violation(f"{c['mod'].replace('::','.')}.{c['name']}-{i}", json.dumps({**ident, "value": c["val"], "path": c["path"], "config": {"fail_fast": c["ff"], "validate_optional_fields": c["opt"]}, "observed": bad}, indent=1) + "\n\n// program:\n" + src, {**ident, "observed": bad})
        else: C.unconfirmed.append(f"{ident}")

def main(mode):
    C = chk.Check(mode)
    out, t = build.dump(["v"], shards=6)
    bound = 8 if C.thorough else 3
    C.bounds = {"list length": bound, "string length": "unbounded", "characters": "Unicode planes 0-2 (z3 string theory)", "nesting": "inductive: one contract per component type"}
    C.assumptions = ["schema.json states the facets (drafted from the pinned tree, audited)", "contracts of std string, formatting and regex functions (engine/intr.py)", "regex crate semantics of the pattern subset used (classes, repetition, alternation, groups)"]
    C.cov["dump_s"] = round(t, 1)
    files = sorted(glob.glob(out + "/v.*.json"), key=lambda p: -os.path.getsize(p))
    if not files: raise SystemExit("no modules dumped")
    have = {os.path.basename(f)[2:-5].replace(".", "::", 1) for f in files}
    for m in vspec.SCHEMA:
        if m not in have: C.uncovered.append(f"{m}: module not found in the tree")
    for r in chk.pool_map(work, [(mode, f, bound) for f in files]): C.absorb(r)
    C.cov["types_in_schema"] = sum(1 for m in vspec.SCHEMA.values() for i in m.values() if i["k"] == "struct")
    if C.candidates: confirm(C, C.candidates)
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
