"""C04 (error collection, parse results), C05 (validation helpers), C09 (message type lookups)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3
from val import *
from mir import Prog
from sym import X, State, Unsupported
import intr, strs, chk, build, vspec, bstr, rope
from bstr import BS, peq
from chk import prove, mstr, mint, mbool, veq, count, nth, rust_str
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = """use mx_message::parse_result::*; use mx_message::error::*; use mx_message::validation::helpers;
fn ev(e: &ValidationError) -> Value { json!([e.code, e.message, e.field, e.path]) }
fn er(e: &ValidationError) -> Value { json!([e.code, e.field, e.path]) }"""
EC = "parse_result::ErrorCollector::"
RECORD = os.environ.get("VERIF_RECORD")

class Ctx:
    def __init__(self, C, prog):
        self.C, self.prog, self.xs = C, prog, []
    def X(self, **k):
        x = X(self.prog, intr.I, **k)
        self.xs.append(x)
        return x
    def done(self, x, what):
        for pc, msg, where in x.unsupported: self.C.uncovered.append(f"{what}: {msg} at {where}")
        for pc, where in x.truncated: self.C.uncovered.append(f"{what}: bound at {where}")
    def ob(self, x, cs, cand):
        """the conjunction cs must be impossible; cand(model) builds the probe"""
        C = self.C
        C.obligations += 1
        r, m = prove(x, cs)
        if r == "unsat": C.discharged += 1; return True
        if r == "unknown": C.unknown += 1; C.uncovered.append(f"solver gave up: {m}"); return None
        c = cand(m)
        if c: C.candidates.append(c)
        return False
    def wit(self, x, cs):
        if prove(x, cs)[0] == "sat": self.C.witnesses += 1
    def call(self, x, st, path, args, what):
        f = self.prog.fn(path)
        if f is None: raise Unsupported(f"{path} is not in the tree")
        r = x.call(st, f, args)
        if not r: raise Unsupported(f"{what}: no result {[(m, w) for _, m, w in x.unsupported][:3]}")
        if len(r) > 1: raise Unsupported(f"{what}: several results")
        return r[0]
    def panics(self, x, what, cand):
        for p in x.panics:
            self.ob(x, list(p.pc), lambda m: cand(m, f"panic: {p.msg}"))
        x.panics = []

def guard(C, f, *a):
    try: f(*a)
    except Unsupported as e: C.uncovered.append(f"{f.__name__}: {e}")
    except (Exception, RecursionError) as e:
        import traceback
        C.uncovered.append(f"{f.__name__}: outside the shapes understood: {traceback.format_exc()[-400:]}")

def fallback(k, what, f, args, g, bound):
    """f decides with unbounded texts; what it cannot encode is decided by g with texts of a bounded number of bytes"""
    C = k.C
    old, C.uncovered = C.uncovered, []
    nc, no, nd = len(C.candidates), C.obligations, C.discharged
    guard(C, f, k, *args)
    why, C.uncovered = C.uncovered, old
    if not why: return
    cs = C.candidates[nc:]; del C.candidates[nc:]
    C.obligations, C.discharged = no, nd
    from textlib import TCtx
    t = TCtx(C, k.prog); t.xs = k.xs
    n = len(C.uncovered)
    guard(C, g, t, *args)
    if len(C.uncovered) > n: C.uncovered.append(f"{what}: {why[0]}")
    else:
        C.notes.append(f"{what}: {bound} ({str(why[0])[:150]})")
        cs = []
    C.candidates += cs
def adt(prog, path):
    for i, t in enumerate(prog.types):
        if t[0] == "adt" and t[1] == path: return i
    raise Unsupported(f"type {path}")
def names(prog, ty, var=0): return [n for n, _ in prog.types[ty][4][var][2]]
def sym_error(k, x, st, prog, n):
    return x.expand(Lazy(adt(prog, "error::ValidationError"), n, prog))
def err_py(x, m, v, prog):
    """model value of an error: [code, message, field, path]"""
    ns = names(prog, adt(prog, "error::ValidationError"))
    g = {n: (x.expand(e) if isinstance(e, Lazy) else e) for n, e in zip(ns, v.f)}
    def s(t): return mstr(m, t.t) if is_z(t.t) else t.t
    def o(v):
        if isinstance(v, Adt): return s(v.f[0]) if v.v == 1 else None
        return None if mint(m, v.d) == 0 else s(x.expand(v.alts[1][0]) if isinstance(v.alts[1][0], Lazy) else v.alts[1][0])
    return [mint(m, g["code"]), s(g["message"]), o(g["field"]), o(g["path"])]
def err_rust(e):
    r = f"ValidationError {{ code: {e[0]}, message: {rust_str(e[1])}.to_string(), field: {opt_rust(e[2])}, path: {opt_rust(e[3])} }}"
    return r
def opt_rust(s): return "None" if s is None else f"Some({rust_str(s)}.to_string())"

# ------------------------------------------------------------------ C04
def histories(k, start):
    C, prog = k.C, k.prog
    N = 10 if C.thorough else 5
    x = k.X(loop_bound=64, vec_bound=N + 2)
    st = State()
    st, col0 = k.call(x, st, start, [], start)
    col = x.alloc(st, col0)
    ops, errs = [], []
    for i in range(N):
        o = z3.Int(f"op{i}"); x.axiom(z3.And(o >= 0, o <= 2)); ops.append(o)
        e = sym_error(k, x, st, prog, f"e{i}"); errs.append(e)
        outs = []
        for v, name in ((0, None), (1, "add_error"), (2, "add_critical_error")):
            s = x.fork(st, o == v).copy()
            if name: s, _ = k.call(x, s, EC + name, [col, e], name)
            outs.append(s)
        st = x.merge_states(outs)
    want = Vec([(o != 0, e) for o, e in zip(ops, errs)], False)
    wcrit = Or(*[o == 2 for o in ops])
    st, he = k.call(x, st, EC + "has_errors", [col], "has_errors")
    st, hc = k.call(x, st, EC + "has_critical_errors", [col], "has_critical_errors")
    st, n = k.call(x, st, EC + "error_count", [col], "error_count")
    st, lst = k.call(x, st, EC + "errors", [x.load(st, col)], "errors")
    k.done(x, "error collection")
    lst = x.deref_all(st, lst)
    if isinstance(lst, Arr): lst = Vec([(True, e) for e in lst.f])
    def cand(what):
        def f(m):
            h = [(mint(m, o), err_py(x, m, e, prog)) for o, e in zip(ops, errs)]
            h = [(o, e) for o, e in h if o]
            ctor = "ErrorCollector::default()" if "Default" in start else "ErrorCollector::new()"
            body = f"let mut c = {ctor}; " + " ".join(f"c.{'add_error' if o == 1 else 'add_critical_error'}({err_rust(e)});" for o, e in h)
            body += " let (a, b, n) = (c.has_errors(), c.has_critical_errors(), c.error_count()); json!([a, b, n, c.errors().iter().map(ev).collect::<Vec<_>>()])"
            return dict(expr=body, expect=[bool(h), any(o == 2 for o, _ in h), len(h), [e for _, e in h]], ident={"what": what, "history": [o for o, _ in h]})
        return f
    k.panics(x, "error collection", lambda m, t: cand(t)(m))
    base = list(st.pc)
    k.ob(x, base + [zb(he) != zb(Or(*[o != 0 for o in ops]))], cand("has_errors"))
    k.ob(x, base + [zb(hc) != zb(wcrit)], cand("has_critical_errors"))
    k.ob(x, base + [zi(n) != count(want)], cand("error_count"))
    k.ob(x, base + [count(lst) != count(want)], cand("number of errors returned"))
    for i in range(N):
        gw, vw = nth(x, want, i); gl, vl = nth(x, lst, i)
        if vl is None:
            k.ob(x, base + [gw], cand("error lost")); continue
        k.ob(x, base + [gw, gl, Not(veq(x, vl, vw, st))], cand(f"error {i} differs"))
    k.wit(x, base + [wcrit, Not(ops[0] == 0), ops[-1] == 1])
    C.samples.append({"start": start, "operations": N, "claim": "errors, count, flags equal to the history"})

def parse_results(k):
    C, prog = k.C, k.prog
    PR = "parse_result::ParseResult::<T>::"
    N = 6 if C.thorough else 3
    f = prog.fn(PR + "is_success")
    if f is None: raise Unsupported("ParseResult::is_success is not in the tree")
    for meth in ("is_success", "is_failure", "value", "errors", "to_result"):
        guard(C, parse_result_method, k, PR, meth, N)
def parse_result_method(k, PR, meth, N):
    C, prog = k.C, k.prog
    x = k.X(vec_bound=N)
    st = State()
    fn = prog.fn(PR + meth)
    if fn is None: raise Unsupported(f"ParseResult::{meth} is not in the tree")
    t = prog.types[fn.locals[1]]
    pty = t[1] if t[0] == "ref" else fn.locals[1]
    vs = [v[0] for v in prog.types[pty][4]]
    S, P, F = vs.index("Success"), vs.index("PartialSuccess"), vs.index("Failure")
    v = x.expand(Lazy(pty, "r", prog))
    arg = x.alloc(st, v) if t[0] == "ref" else v
    st, r = k.call(x, st, PR + meth, [arg], meth)
    k.done(x, f"ParseResult::{meth}")
    d = v.d
    val = {i: (x.expand(v.alts[i][0]) if isinstance(v.alts[i][0], Lazy) else v.alts[i][0]) for i in (S, P)}
    ers = {P: v.alts[P][1], F: v.alts[F][0]}
    ers = {i: (x.expand(e) if isinstance(e, Lazy) else e) for i, e in ers.items()}
    def cand(what):
        def g(m):
            var = mint(m, d)
            es = []
            if var in ers: es = [err_py(x, m, x.expand(e) if isinstance(e, Lazy) else e, prog) for gd, e in ers[var].e if mbool(m, gd)]
            lit = {S: "ParseResult::Success(7u8)", P: f"ParseResult::PartialSuccess(7u8, vec![{', '.join(map(err_rust, es))}])", F: f"ParseResult::<u8>::Failure(vec![{', '.join(map(err_rust, es))}])"}[var]
            body = f"let r = {lit}; json!([r.is_success(), r.is_failure(), r.value().copied(), r.errors().into_iter().map(ev).collect::<Vec<_>>(), match r.to_result() {{ Ok(v) => json!(v), Err(e) => json!(e.iter().map(ev).collect::<Vec<_>>()) }}])"
            exp = [var == S, var == F, 7 if var != F else None, es, 7 if var != F else es]
            return dict(expr=body, expect=exp, ident={"what": f"ParseResult::{meth}: {what}", "variant": vs[var]})
        return g
    k.panics(x, meth, lambda m, t: cand(t)(m))
    base = list(st.pc)
    k.wit(x, base + [d == P])
    if meth in ("is_success", "is_failure"):
        k.ob(x, base + [zb(r) != (d == (S if meth == "is_success" else F))], cand("wrong answer")); return
    def ite_case(i, fn_):
        k.ob(x, base + [d == i, Not(fn_)], cand("wrong answer"))
    if meth == "value":
        r = x.expand(r) if isinstance(r, Lazy) else r
        da, al = (r.v, {r.v: r.f}) if isinstance(r, Adt) else (r.d, r.alts)
        k.ob(x, base + [zb(Eq(da, 1)) != (d != F)], cand("wrong answer"))
        for i in (S, P):
            ite_case(i, deep_eq(x, st, al[1][0], val[i], d == i) if 1 in al else False)
    elif meth == "errors":
        r = x.deref_all(st, r)
        for i in (S, P, F):
            for g, lv in list_cases(r):
                w = Vec(()) if i == S else ers[i]
                ok = deep_list(x, st, lv, w)
                k.ob(x, base + [d == i, g, Not(ok)], cand("wrong errors"))
    else:
        da, al = (r.v, {r.v: r.f}) if isinstance(r, Adt) else (r.d, r.alts)
        k.ob(x, base + [zb(Eq(da, 0)) != (d != F)], cand("wrong kind"))
        for i in (S, P): ite_case(i, deep_eq(x, st, al[0][0], val[i], d == i) if 0 in al else False)
        for g, lv in list_cases(x.deref_all(st, al[1][0])) if 1 in al else []:
            k.ob(x, base + [d == F, g, Not(deep_list(x, st, lv, ers[F]))], cand("wrong errors"))
def list_cases(v):
    return cases(Vec([(True, e) for e in v.f]) if isinstance(v, Arr) else v)
def deep_eq(x, st, a, b, assume=True):
    """equality of what the references lead to; opaque values (of a type parameter) are compared by identity"""
    if isinstance(a, Lazy): a = x.expand(a)
    if isinstance(b, Lazy): b = x.expand(b)
    if isinstance(a, Ref): a = x.load(st, a)
    if isinstance(b, Ref): b = x.load(st, b)
    if isinstance(a, Ite): return If(a.g, zb(deep_eq(x, st, a.a, b)), zb(deep_eq(x, st, a.b, b)))
    return veq(x, a, b, st)
def deep_list(x, st, a, b):
    if not isinstance(a, Vec) or not isinstance(b, Vec): raise Unsupported(f"list expected, got {type(a).__name__}")
    cs = [Eq(count(a), count(b))]
    for i in range(max(len(a.e), len(b.e))):
        ga, va = nth(x, a, i); gb, vb = nth(x, b, i)
        if va is None or vb is None: continue
        cs.append(Or(Not(And(ga, gb)), deep_eq(x, st, va, vb)))
    return And(*cs)

def conversions(k):
    C, prog = k.C, k.prog
    ety = adt(prog, "error::ValidationError"); ns = names(prog, ety)
    for what in ("from", "new", "with_field", "with_path"):
        guard(C, conversion, k, what, ety, ns)
def conversion(k, what, ety, ns):
    C, prog = k.C, k.prog
    x = k.X(); st = State()
    e = x.expand(Lazy(ety, "e", prog))
    e = Adt(ety, 0, [x.expand(f) if isinstance(f, Lazy) else f for f in e.f])
    g = dict(zip(ns, e.f))
    text = Str(x.new_str("t")); code = z3.Int("c"); x.axiom(z3.And(code >= 0, code < 2 ** 32))
    def cand(kind):
        def h(m):
            ep = err_py(x, m, e, prog); t = mstr(m, text.t); c = mint(m, code)
            if what == "from":
                body = f"match MxError::from({err_rust(ep)}) {{ MxError::Validation {{ code, message, field, path }} => json!([code, message, field, path]), _ => json!(0) }}"; exp = ep
            elif what == "new": body = f"ev(&ValidationError::new({c}, {rust_str(t)}.to_string()))"; exp = [c, t, None, None]
            else:
                body = f"ev(&{err_rust(ep)}.{what}({rust_str(t)}.to_string()))"
                exp = list(ep); exp[2 if what == "with_field" else 3] = t
            return dict(expr=body, expect=exp, ident={"what": f"{what}: {kind}"})
        return h
    if what == "from":
        st, r = k.call(x, st, "<error::MxError as std::convert::From<error::ValidationError>>::from", [e], what)
        mty = adt(prog, "error::MxError")
        vn = [v[0] for v in prog.types[mty][4]]
        vi = vn.index("Validation")
        cs = r if isinstance(r, Adt) else None
        if cs is None: raise Unsupported("conversion result")
        k.ob(x, list(st.pc) + [Not(Eq(cs.v, vi))], cand("variant"))
        if cs.v == vi:
            got = dict(zip(names(prog, mty, vi), cs.f))
            for n in ("code", "message", "field", "path"): k.ob(x, list(st.pc) + [Not(veq(x, got[n], g[n], st))], cand(n))
    else:
        if what == "new": st, r = k.call(x, st, "error::ValidationError::new", [code, text], what); want = {"code": code, "message": text, "field": intr.NONE(), "path": intr.NONE()}
        else:
            st, r = k.call(x, st, f"error::ValidationError::{what}", [e, text], what)
            want = dict(g); want[what[5:]] = intr.SOME(text)
        got = dict(zip(ns, r.f))
        for n in ("code", "message", "field", "path"): k.ob(x, list(st.pc) + [Not(veq(x, got[n], want[n], st))], cand(n))
    k.done(x, what)
    k.panics(x, what, lambda m, t: cand(t)(m))
    k.wit(x, list(st.pc))

def presets(k):
    C, prog = k.C, k.prog
    for path, rust, exp in (("<parse_result::ParserConfig as std::default::Default>::default", "ParserConfig::default()", (False, True, True)),
                            ("parse_result::ParserConfig::fail_fast", "ParserConfig::fail_fast()", (True, True, False)),
                            ("parse_result::ParserConfig::lenient", "ParserConfig::lenient()", (False, False, False))):
        x = k.X(); st = State()
        st, r = k.call(x, st, path, [], path)
        ns = names(prog, adt(prog, "parse_result::ParserConfig"))
        for n, w in zip(("fail_fast", "validate_optional_fields", "collect_all_errors"), exp):
            k.ob(x, list(st.pc) + [Not(Eq(r.f[ns.index(n)], w))], lambda m: dict(expr=f"let c = {rust}; json!([c.fail_fast, c.validate_optional_fields, c.collect_all_errors])", expect=list(exp), ident={"what": f"preset {rust}"}))
        k.done(x, path)

def c04(k):
    k.C.bounds = {"operations per history": 10 if k.C.thorough else 5, "errors in a parse result": 6 if k.C.thorough else 3, "texts": "unbounded"}
    guard(k.C, histories, k, EC + "new")
    guard(k.C, histories, k, "<parse_result::ErrorCollector as std::default::Default>::default")
    guard(k.C, parse_results, k); guard(k.C, conversions, k); guard(k.C, presets, k)

# ------------------------------------------------------------------ C05
def config(k, x, st):
    ty = adt(k.prog, "parse_result::ParserConfig"); ns = names(k.prog, ty)
    vs = {n: z3.Bool("cfg." + n) for n in ns}
    return x.alloc(st, Adt(ty, 0, [vs[n] for n in ns])), vs
def cfg_rust(m, vs): return "ParserConfig { " + ", ".join(f"{n}: {str(mbool(m, v)).lower()}" for n, v in vs.items()) + " }"
PRE = [1, "pre", None, None]
def prior(k, x, st):
    """a collection with nothing, one error or one critical error in it"""
    o = z3.Int("prior"); x.axiom(z3.And(o >= 0, o <= 2))
    st, c0 = k.call(x, st, EC + "new", [], "new")
    col = x.alloc(st, c0)
    ety = adt(k.prog, "error::ValidationError")
    e = Adt(ety, 0, [{"code": 1, "message": Str("pre")}.get(n, intr.NONE()) for n in names(k.prog, ety)])
    outs = []
    for v, name in ((0, None), (1, "add_error"), (2, "add_critical_error")):
        s = x.fork(st, o == v).copy()
        if name: s, _ = k.call(x, s, EC + name, [col, e], name)
        outs.append(s)
    return x.merge_states(outs), col, o
def reports(k, x, st, col):
    """([(guard, code, field, path)] of the reports, prior kept guard, critical)"""
    st, hc = k.call(x, st, EC + "has_critical_errors", [col], "has_critical_errors")
    st, lst = k.call(x, st, EC + "errors", [x.load(st, col)], "errors")
    ns = names(k.prog, adt(k.prog, "error::ValidationError"))
    def o(v):
        if isinstance(v, Adt): return v.f[0] if v.v == 1 else None
        raise Unsupported("report with a guarded field")
    out = []
    for g, lv in list_cases(x.deref_all(st, lst)):
        for gg, e in lv.e:
            for ge, ee in cases(e, And(g, gg)):
                d = dict(zip(ns, ee.f))
                out.append((ge, d["code"], o(d["field"]), o(d["path"])))
    return st, out, hc
def judge(k, x, base, ff, pr, reps, ret, wrong, field, path, cand):
    """wrong: [(guard, code)].  Full mode: exactly those reports are added; fail-fast: one of them when the
    collection was empty, none otherwise.  The prior error stays; the answer is true exactly when nothing is wrong."""
    own = []
    pre = []
    for g, c, f, p in reps:
        if not is_z(c) and c == 1 and f is None and p is None: pre.append(g)
        else: own.append((g, c, f, p))
    any_ = Or(*[g for g, _ in wrong])
    cnt = lambda gs: z3.Sum([z3.If(zb(g), 1, 0) for g in gs] + [z3.IntVal(0)])
    k.ob(x, base + [cnt(pre) != z3.If(pr != 0, z3.IntVal(1), z3.IntVal(0))], cand("earlier error"))
    k.ob(x, base + [zb(ret) != zb(Not(any_))], cand("answer"))
    for c in sorted({c for _, c in wrong}):
        mine = [And(g, Eq(cc, c)) for g, cc, _, _ in own]
        k.ob(x, base + [Not(ff), cnt(mine) != cnt([g for g, cc in wrong if cc == c])], cand(f"reports of {c}"))
        k.ob(x, base + [ff, Or(*mine), Not(Or(*[g for g, cc in wrong if cc == c]))], cand(f"false report of {c}"))
        k.wit(x, base + [Or(*mine)])
    k.ob(x, base + [ff, cnt([g for g, *_ in own]) != z3.If(zb(And(any_, pr == 0)), z3.IntVal(1), z3.IntVal(0))], cand("fail-fast"))
    for g, c, f, p in own:
        k.ob(x, base + [g, And(*[Not(Eq(c, cc)) for _, cc in wrong])], cand("unknown report"))
        k.ob(x, base + [g, Not(intr.seq(x, f, field) if f is not None else False)], cand("field of the report"))
        k.ob(x, base + [g, Not(intr.seq(x, p, path) if p is not None else False)], cand("path of the report"))
def helper_probe(m, call, pr, cfg, expect, ident):
    p = mint(m, pr)
    pre = ["", 'c.add_error(ValidationError::new(1, "pre".to_string()));', 'c.add_critical_error(ValidationError::new(1, "pre".to_string()));'][p]
    body = f"let cfg = {cfg}; let mut c = ErrorCollector::new(); {pre} let r = {call}; json!([r, c.errors().iter().map(er).collect::<Vec<_>>()])"
    return dict(expr=body, expect=expect, ident=ident)
def expect_helper(wrong, p, ff):
    """wrong: list of reports [code, field, path]"""
    pre = [[1, None, None]] if p else []
    def chk_(got):
        if not isinstance(got, list): return f"observed {got}"
        r, l = got
        if r != (not wrong): return f"answers {r} with {wrong} wrong"
        key = lambda e: json.dumps(e)
        if ff:
            ok = l == pre if (p or not wrong) else (len(l) == 1 and l[0] in wrong)
        else: ok = sorted(l, key=key) == sorted(pre + wrong, key=key)
        return None if ok else f"reports {l}, wrong are {wrong}"
    return chk_

def length_helper(k):
    x = k.X(); st = State()
    fn = k.prog.fn("validation::helpers::validate_length")
    cfg, vs = config(k, x, st)
    st, col, pr = prior(k, x, st)
    v, f, p = Str(x.new_str("value")), Str(x.new_str("field")), Str(x.new_str("path"))
    lo, hi = x.expand(Lazy(fn.locals[3], "min", k.prog)), x.expand(Lazy(fn.locals[4], "max", k.prog))
    st, r = k.call(x, st, fn.path, [v, f, lo, hi, p, cfg, col], "validate_length")
    st, reps, hc = reports(k, x, st, col)
    k.done(x, "validate_length")
    lov, hiv = x.expand(lo.alts[1][0]), x.expand(hi.alts[1][0])
    n = z3.Length(v.t)
    ff = vs["fail_fast"]
    wrong = [(And(lo.d == 1, n < lov), 1001), (And(hi.d == 1, n > hiv), 1002)]
    def cand(what):
        def h(m):
            s, fs, ps = mstr(m, v.t), mstr(m, f.t), mstr(m, p.t)
            a = None if mint(m, lo.d) == 0 else mint(m, lov)
            b = None if mint(m, hi.d) == 0 else mint(m, hiv)
            w = ([[1001, fs, ps]] if a is not None and len(s) < a else []) + ([[1002, fs, ps]] if b is not None and len(s) > b else [])
            q = lambda z: "None" if z is None else f"Some({z}usize)"
            return helper_probe(m, f"helpers::validate_length({rust_str(s)}, {rust_str(fs)}, {q(a)}, {q(b)}, {rust_str(ps)}, &cfg, &mut c)", pr, cfg_rust(m, vs), expect_helper(w, mint(m, pr), mbool(m, ff)),
                                {"what": f"validate_length: {what}", "value": s, "min": a, "max": b})
        return h
    k.panics(x, "validate_length", lambda m, t: cand(t)(m))
    judge(k, x, list(st.pc), ff, pr, reps, r, wrong, f, p, cand)
    k.C.samples.append({"helper": "validate_length", "symbolic": "text, limits, names, switches, prior collection"})

CRAFTED = ["a|b", "a|", "(a|b)c", "", "a*", "[^a]", "[^a-c]*x", ".", ".*", "^a", "a$", "^a|b$", "(?:ab)+", "[0-9]{2,}", "a{0}", "a{3}", "[A-Z]{3,3}|[0-9]{2}", " a ", "a ?", "\\+a\\.", "é+"]
INVALID = ["(", "[a", "*", "a)", "a{2,1}", "a)|(b", "(?P<n>a", "[z-a]", "+"]
def pattern_helper(k, pat, valid):
    x = k.X(); st = State()
    fn = k.prog.fn("validation::helpers::validate_pattern")
    cfg, vs = config(k, x, st)
    st, col, pr = prior(k, x, st)
    v, f, p = Str(x.new_str("value")), Str(x.new_str("field")), Str(x.new_str("path"))
    st, r = k.call(x, st, fn.path, [v, f, Str(pat), p, cfg, col], "validate_pattern")
    st, reps, hc = reports(k, x, st, col)
    k.done(x, f"validate_pattern {pat!r}")
    ff = vs["fail_fast"]
    if valid:
        seq = strs.parse_rx(pat)
        R = strs.trimmed_re(strs.rx_re(seq, False, True, True))
        wrong = [(Not(z3.InRe(v.t, R)), 1005)]
    else: wrong = [(True, 9999)]
    def cand(what):
        def h(m):
            s, fs, ps = mstr(m, v.t), mstr(m, f.t), mstr(m, p.t)
            import re
            bad = not valid or re.compile(rf"(?:{pat})\Z").match(vspec.trim(s)) is None
            w = [[1005 if valid else 9999, fs, ps]] if bad else []
            return helper_probe(m, f"helpers::validate_pattern({rust_str(s)}, {rust_str(fs)}, {rust_str(pat)}, {rust_str(ps)}, &cfg, &mut c)", pr, cfg_rust(m, vs), expect_helper(w, mint(m, pr), mbool(m, ff)),
                                {"what": f"validate_pattern: {what}", "pattern": pat, "value": s})
        return h
    k.panics(x, "validate_pattern", lambda m, t: cand(t)(m))
    judge(k, x, list(st.pc), ff, pr, reps, r, wrong, f, p, cand)
def required_helper(k):
    x = k.X(); st = State()
    fn = k.prog.fn("validation::helpers::validate_required")
    cfg, vs = config(k, x, st)
    st, col, pr = prior(k, x, st)
    f, p = Str(x.new_str("field")), Str(x.new_str("path"))
    v = x.expand(Lazy(k.prog.types[fn.locals[1]][1], "value", k.prog))
    st, r = k.call(x, st, fn.path, [x.alloc(st, v), f, p, cfg, col], "validate_required")
    st, reps, hc = reports(k, x, st, col)
    k.done(x, "validate_required")
    def cand(what):
        def h(m):
            fs, ps = mstr(m, f.t), mstr(m, p.t); a = mint(m, v.d) == 0
            return helper_probe(m, f"helpers::validate_required(&{'None::<u8>' if a else 'Some(1u8)'}, {rust_str(fs)}, {rust_str(ps)}, &cfg, &mut c)", pr, cfg_rust(m, vs), expect_helper([[1003, fs, ps]] if a else [], mint(m, pr), mbool(m, vs["fail_fast"])),
                                {"what": f"validate_required: {what}"})
        return h
    k.panics(x, "validate_required", lambda m, t: cand(t)(m))
    judge(k, x, list(st.pc), vs["fail_fast"], pr, reps, r, [(v.d == 0, 1003)], f, p, cand)
def child_path_helper(k):
    x = k.X(); st = State()
    a, b = Str(x.new_str("parent")), Str(x.new_str("field"))
    st, r = k.call(x, st, "validation::helpers::child_path", [a, b], "child_path")
    k.done(x, "child_path")
    r = intr.S(x, st, r)
    want = Str(z3.If(a.t == sval(""), b.t, z3.Concat(a.t, sval("."), b.t)))
    def cand(what):
        def h(m):
            s, t = mstr(m, a.t), mstr(m, b.t)
            return dict(expr=f"json!(helpers::child_path({rust_str(s)}, {rust_str(t)}))", expect=t if s == "" else s + "." + t, ident={"what": "child_path", "parent": s, "field": t})
        return h
    k.panics(x, "child_path", lambda m, t: cand(t)(m))
    k.ob(x, list(st.pc) + [Not(intr.seq(x, r, want))], cand(""))
    k.wit(x, list(st.pc) + [a.t == sval("")]); k.wit(x, list(st.pc) + [a.t != sval("")])
def c05(k):
    pats = set()
    def walk(o):
        if isinstance(o, dict):
            if "pat" in o: pats.add(o["pat"])
            for v in o.values(): walk(v)
        elif isinstance(o, list):
            for v in o: walk(v)
    walk(vspec.SCHEMA)
    k.C.bounds = {"texts, limits": "unbounded (characters of Unicode planes 0-2)", "patterns": f"the {len(pats)} patterns of the schemas, {len(CRAFTED)} crafted and {len(INVALID)} invalid ones"}
    guard(k.C, length_helper, k); guard(k.C, required_helper, k); guard(k.C, child_path_helper, k)
    for p in sorted(pats) + CRAFTED: guard(k.C, pattern_helper, k, p, True)
    for p in INVALID: guard(k.C, pattern_helper, k, p, False)
    k.C.samples.append({"helper": "validate_pattern", "patterns": len(pats) + len(CRAFTED) + len(INVALID)})

# ------------------------------------------------------------------ C09
CAT = json.load(open(os.path.join(ROOT, "spec/catalogue.json")))["entries"]
NS = "urn:iso:std:iso:20022:tech:xsd:"
LOOKUPS = [     # function, Rust call, keys of an entry that select it, answer, answer for other texts
    ("message_registry::get_namespace", "mx_message::message_registry::get_namespace({})", (0, 1), lambda e: NS + e[1], lambda s: NS + s),
    ("message_registry::normalize_message_type", "mx_message::message_registry::normalize_message_type({})", (0, 1), lambda e: e[0], lambda s: s),
    ("mx_envelope::get_namespace_for_message_type", "mx_message::mx_envelope::get_namespace_for_message_type({})", (0, 1), lambda e: NS + e[1], lambda s: NS + s),
    ("mx_envelope::normalize_message_type", "mx_message::mx_envelope::normalize_message_type({})", (0, 1), lambda e: e[0], lambda s: s),
    ("message_registry::element_to_message_type", "mx_message::message_registry::element_to_message_type({})", (2, 3), lambda e: e[0], None),
    ("message_registry::message_type_to_element", "mx_message::message_registry::message_type_to_element({})", (0, 1), lambda e: e[3], None),
    ("message_registry::message_type_to_rust_type", "mx_message::message_registry::message_type_to_rust_type({})", (0, 1), lambda e: e[2], None),
    ("message_registry::get_full_form", "mx_message::message_registry::get_full_form({})", (0, 1), lambda e: e[1], None),
]
def lookup(k, path, rust, keys, ans, other):
    x = k.X(loop_bound=400); st = State()
    t = x.new_str("text")
    st, r = k.call(x, st, path, [Str(t)], path)
    k.done(x, path)
    base = list(st.pc)
    def pyans(s):
        for e in CAT:
            if any(s == e[i] for i in keys): return ans(e)
        return other(s) if other else None
    def cand(m, what=""):
        s = mstr(m, t)
        return dict(expr=f"json!({rust.format(rust_str(s))})", expect=pyans(s), ident={"what": path.split("::")[-1], "text": s})
    k.panics(x, path, cand)
    if other:
        v = intr.S(x, st, r)
        eq = lambda w: intr.seq(x, v, Str(w))
        none = intr.seq(x, v, Str(z3.Concat(sval(NS), t) if other("") else t))
    else:
        r = x.expand(r) if isinstance(r, Lazy) else r
        if isinstance(r, Ite): raise Unsupported("guarded option")
        da, al = (r.v, {r.v: r.f}) if isinstance(r, Adt) else (r.d, r.alts)
        v = intr.S(x, st, al[1][0]) if 1 in al else None
        eq = lambda w: And(Eq(da, 1), intr.seq(x, v, Str(w))) if v is not None else False
        none = Eq(da, 0)
    ks = []
    for e in CAT:
        for i in keys:
            ks.append(e[i])
            k.ob(x, base + [t == sval(e[i]), Not(eq(ans(e)))], cand)
    k.wit(x, base + [t == sval(CAT[0][keys[0]])])
    oth = [t != sval(s) for s in ks]
    k.wit(x, base + oth)
    k.ob(x, base + oth + [Not(none)], cand)
LOOKUP_N = 48
def result_is(x, v, want):
    """the text v is want: a constant, or literals and texts"""
    if isinstance(v, Ite): return ite(v.g, result_is(x, v.a, want), result_is(x, v.b, want))
    if isinstance(want, str):
        return bstr.eq_lit(bstr.as_bs(x, v), want) if not isinstance(v.t, str) else v.t == want
    w = Str(rope.mk(want))
    try: return bstr.beq(x, v, w)
    except Unsupported: pass
    a, b = bstr.as_bs(x, v), bstr.as_bs(x, w)
    if a.base is b.base: return And(peq(a.lo, b.lo), peq(a.hi, b.hi))
    return bstr.win_eq(a, b)
def option_of(x, r):
    if isinstance(r, Lazy): r = x.expand(r)
    if isinstance(r, Ite):
        (a, u), (b, v) = option_of(x, r.a), option_of(x, r.b)
        return ite(r.g, a, b), (u if v is None else v if u is None else ite(r.g, u, v))
    d, al = (r.v, {r.v: r.f}) if isinstance(r, Adt) else (r.d, r.alts)
    return d, (al[1][0] if 1 in al else None)
def lookup_b(k, path, rust, keys, ans, other):
    """the same question for all texts of up to LOOKUP_N bytes"""
    x = k.X(loop_bound=400); st = State()
    B, t = bstr.new_text(x, "text", LOOKUP_N)
    whole = BS(B, 0, B.n)
    st, r = k.call(x, st, path, [t], path)
    k.done(x, path)
    base = list(st.pc)
    def pyans(s):
        for e in CAT:
            if any(s == e[i] for i in keys): return ans(e)
        return other(s) if other else None
    def cand(m, what=""):
        s = B.text(m).decode("utf8", "replace")
        return dict(expr=f"json!({rust.format(rust_str(s))})", expect=pyans(s), ident={"what": path.split("::")[-1], "text": s})
    k.panics(x, path, cand)
    if other: d, v = True, intr.S(x, st, r)
    else:
        d, v = option_of(x, r)
        d = Eq(d, 1)
        if v is not None: v = intr.S(x, st, v)
    is_ = lambda w: And(d, result_is(x, v, w)) if v is not None else False
    none = is_([NS, whole] if other("") else [whole]) if other else Not(d)
    byans = {}
    for e in CAT:
        for i in keys: byans.setdefault(ans(e), set()).add(e[i])
    sel = {}
    for a, ks in byans.items():
        sel[a] = Or(*[bstr.eq_lit(whole, q) for q in sorted(ks)])
        for q in sorted(ks): k.ob(x, base + [bstr.eq_lit(whole, q), Not(is_(a))], cand)
    k.wit(x, base + [sel[ans(CAT[0])]])
    oth = [Not(g) for g in sel.values()]
    k.wit(x, base + oth)
    k.ob(x, base + oth + [Not(none)], cand)
def c09(k):
    k.C.bounds = {"texts": "unbounded"}
    for l in LOOKUPS: fallback(k, l[0], lookup, l, lookup_b, f"decided for texts of up to {LOOKUP_N} bytes")
    k.C.samples.append({"lookups": len(LOOKUPS), "catalogue entries": len(CAT)})

def main(mode):
    C = chk.Check(mode)
    out, t = build.dump(["core"], shards=1)
    C.cov["dump_s"] = round(t, 1)
    prog = Prog(os.path.join(out, "core.json"))
    C.assumptions = {"C04": ["contracts of Vec, Option and String operations"], "C05": ["contracts of string, formatting and regex functions (engine/intr.py, engine/strs.py)", "regex crate semantics of the pattern subset used"],
                     "C09": ["spec/catalogue.json states the message catalogue"]}[mode]
    k = Ctx(C, prog)
    {"C04": c04, "C05": c05, "C09": c09}[mode](k)
    for x in k.xs: C.absorb_x(x)
    if C.candidates: chk.confirm_probes(C, C.candidates, PRELUDE)
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
