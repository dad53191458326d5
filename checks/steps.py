"""C14 (parse step), C15 (validate step), C16 (publish step), C17 (generate step), C18 (misconfigured steps)."""
from textlib import *
import build, serdemap
from mir import Prog
import text
from text import okv, fidx, vidx, mstr_, pyjson, rjson, only_key
from ext import VNULL, VBOOL, VNUM, VSTR, VARR, VOBJ, vpath, kind, payload, veq, val

MSG, DF = "mx_envelope::MxMessage", "dataflow_rs::"
PC = "plugin::common::"
LEGACY = "camt.027"     # a type that a root element may name, without a reader

# ------------------------------------------------------------------ the readers and writers, as functions of their arguments
class Fun:
    """equal arguments have equal outcomes"""
    def __init__(self, x, name, make): self.x, self.name, self.make, self.calls = x, name, make, []
    def at(self, *args):
        for o, g, v in self.calls:
            if all(same(p, q) for p, q in zip(o, args)): return g, v
        n = len(self.calls)
        g, v = self.make(f"{self.name}{n}", *args)
        for o, h, w in self.calls:
            try: c = And(*[ext.veq(self.x, p, q) for p, q in zip(o, args)])
            except Unsupported: continue
            if c is False: continue
            g = ite(c, h, g); v = ext.vite(self.x, c, w, v)
        self.calls.append((args, g, v))
        return g, v
def text_arg(x, st, a): return intr.S(x, st, a)
class World:
    """one execution of a step on an arbitrary message and configuration"""
def world(k, logging, n):
    C, prog = k.C, k.prog
    w = World()
    w.x = x = k.X(vec_bound=1)
    w.k = k
    x.memo["logging"] = logging
    sizes = {"cfg": 12, "data": n, "payload": n}
    x.memo["strlen_of"] = lambda nm: 12 if nm.startswith("cfg") or nm.endswith((".key0", "KEY")) else n if nm.startswith(("data", "payload")) else 8
    w.N = n
    V = ext.vty(x)
    st = State()
    fresh = lambda nm: z3.Bool(nm)
    lazy = lambda path: lambda nm, *a: (fresh(nm + ".ok"), Lazy(ext.ty_of(x, path), nm, prog))
    tagged = lambda nm, sel: val(x, VOBJ, ext.MapV(None, [(True, Str("Document"), val(x, VOBJ, ext.MapV(None, [(c, Str(e[3]), Lazy(V, f"{nm}.{e[0]}", prog)) for e, c in sel])))]))
    def to_json_doc(nm, t, ty):
        sel = [(e, bstr.beq(x, ty, Str(e[0]))) for e in CAT]
        return And(fresh(nm + ".ok"), Or(*[c for _, c in sel])), tagged(nm, sel)
    def type_of(nm, t):
        i = z3.BitVec(nm + ".type", 8); x.axiom(z3.ULE(i, len(CAT)))
        v = Str(LEGACY)
        for j, e in enumerate(CAT): v = ite(i == j, Str(e[0]), v)
        return fresh(nm + ".ok"), v
    w.from_xml = Fun(x, "fromxml", lazy(MSG))
    w.doc_json = Fun(x, "docjson", to_json_doc)
    w.doc_ok = Fun(x, "docok", lambda nm, t, ty: (w.envelope_str(t, ty), UNIT))
    w.type_of = Fun(x, "typeof", type_of)
    w.to_xml = Fun(x, "toxml", lambda nm, m: (fresh(nm + ".ok"), x.lazy_str(nm)))
    def env_of(t): return Or(*[has(x, t, p) for p in ("<AppHdr", "<Envelope")])
    def envelope_str(t, ty):      # what C20 shows of it
        g, h = w.from_xml.at(t)[0], w.doc_json.at(t, ty)[0]
        return ite(env_of(t), zb(g), zb(h))
    w.env_of, w.envelope_str = env_of, envelope_str
    def hook(fun, nargs, err, unit=False):
        def h(x, st, fn, a, wh):
            args = [text_arg(x, st, v) for v in a[:nargs]]
            g, v = fun.at(*args)
            return ext.res(g, UNIT if unit else v, Opq("error", err))
        return h
    def hook_to_xml(x, st, fn, a, wh):
        g, v = w.to_xml.at(message_of(x, st, a[0]))
        return ext.res(g, v, Opq("error", "to_xml"))
    x.hooks.update({MSG + "::from_xml": hook(w.from_xml, 1, "from_xml"), "xml::xml_to_json_via_document": hook(w.doc_json, 2, "doc"),
                    "xml::from_mx_xml_envelope_str": hook(w.doc_ok, 2, "envelope", unit=True), PC + "extract_message_type_from_xml": hook(w.type_of, 1, "type"),
                    MSG + "::to_xml": hook_to_xml})
    dt = ext.ty_of(x, "mx_envelope::Document")
    def json_of(x, st, v, ty, i):
        m = message_of(x, st, v, ty)
        if m is None: return None
        doc = x.expand(x.expand(m).f[fidx(prog, ext.ty_of(x, MSG), "document")])
        sel = [(e, Eq(doc.d, vidx(prog, dt, variant(e)))) for e in CAT]
        return fresh(f"json({i}).ok"), tagged(f"json({i})", sel)
    x.memo["jsonform_hook"] = json_of
    w.doc_sel = lambda m: [(e, Eq(x.expand(x.expand(m).f[fidx(prog, ext.ty_of(x, MSG), "document")]).d, vidx(prog, dt, variant(e)))) for e in CAT]
    # the message
    mt = ext.ty_of(x, DF + "Message")
    w.data, w.meta, w.pay, w.temp = (Lazy(V, nm, prog) for nm in ("data", "meta", "payload", "temp"))
    base = ext.MBase("context", V, prog)
    for nm, v in (("data", w.data), ("metadata", w.meta), ("temp_data", w.temp)): base.seen.append((Str(nm), True, v))
    fs = []
    for nm, ty in prog.types[mt][4][0][2]:
        fs.append(val(x, VOBJ, ext.MapV(base)) if nm == "context" else x.alloc(st, w.pay) if nm == "payload" else Lazy(ty, f"msg.{nm}", prog))
    w.m0 = Adt(mt, 0, fs)
    w.msg = x.alloc(st, w.m0)
    w.cfgv = Lazy(ext.ty_of(x, DF + "FunctionConfig"), "cfg", prog)
    w.st = st
    w.mt = mt
    return w
def message_of(x, st, v, ty=None):
    for _ in range(6):
        if isinstance(v, Lazy):
            t = x.prog.types[v.ty]
            if t[0] == "adt" and t[1] == MSG: return v
            return None
        if isinstance(v, Ref): v = x.get(x.cell(st, v.cell), v.path)
        elif isinstance(v, Adt):
            t = x.prog.types[v.ty] if v.ty is not None else None
            if not t or t[1] != MSG: return None
            for l in x.memo.setdefault("messages", []):
                pass
            n = {f.name.rsplit(".", 1)[0] for f in v.f if isinstance(f, Lazy)}
            if len(n) == 1 and all(isinstance(f, Lazy) for f in v.f): return Lazy(v.ty, n.pop(), x.prog)
            return v
        else: return v if isinstance(v, Ite) else None
    return None
def has(x, t, pat):
    if isinstance(t, Ite): return ite(t.g, zb(has(x, t.a, pat)), zb(has(x, t.b, pat)))
    return first(as_bs(x, t), lit_pat(pat))[0]

STEPS = {"parse": "Parse", "validate": "Validate", "publish": "Publish", "generate": "Generate"}
def run(w, step):
    """the step, driven to its end"""
    k, x, st = w.k, w.x, w.st
    path = f"<plugin::{step}::{STEPS[step]} as dataflow_rs::AsyncFunctionHandler>::execute"
    f = k.prog.fn(path)
    if f is None: raise Unsupported(f"{path} is not in the tree")
    w.unsup0 = len(x.unsupported)
    r = x.call(st, f, [x.sym(f.locals[1], "self"), w.msg, x.alloc(st, w.cfgv), Opq("engine")])
    if len(r) != 1: raise Unsupported(f"{step}: {[(b, c) for _, b, c in x.unsupported][:3]}")
    st, v = r[0]
    for _ in range(3):
        p = v
        while isinstance(p, Adt): p = p.f[0]
        co = x.load(st, p)
        if not isinstance(co, Co): raise Unsupported(f"{step}: future of an unknown shape")
        r = x.call(st, k.prog.fns[co.prog.types[co.ty][3]], [Adt(None, 0, (p,)), Opq("context")])
        if len(r) != 1: raise Unsupported(f"{step}: {[(b, c) for _, b, c in x.unsupported][:3]}")
        st, q = r[0]
        if isinstance(q, Adt) and q.v == 0: break
        raise Unsupported(f"{step}: the future waits")
    k.done(x, step)
    w.st, w.panics, x.panics = st, list(x.panics), []
    w.ok, w.res = okv(x, q.f[0])
    w.m1 = x.load(st, w.msg)
    w.ctx1 = w.m1.f[fidx(k.prog, w.mt, "context")]
    w.base = list(st.pc)
    return w
# ------------------------------------------------------------------ definitions
def param(w, name):
    """(given and a text, text)"""
    x = w.x
    c = x.expand(w.cfgv)
    v = vidx(w.k.prog, ext.ty_of(x, DF + "FunctionConfig"), "Custom")
    names = [n for n, _ in w.k.prog.types[c.ty][4][v][2]]
    w.custom = Eq(c.d, v)
    w.input = c.alts[v][names.index("input")]
    p, u = vpath(x, w.input, name)
    return And(w.custom, p, kind(x, u, VSTR)), payload(x, u, VSTR)
def source_text(w, src):
    """the text the source names (C19): (present, text)"""
    x = w.x
    isp = bstr.beq(x, src, Str("payload"))
    pf, fv = vpath(x, w.data, src)
    pn, nv = vpath(x, fv, "mx_message")
    sn, sf, sp = kind(x, nv, VSTR), kind(x, fv, VSTR), kind(x, w.pay, VSTR)
    t = ext.vite(x, And(pn, sn), payload(x, nv, VSTR), payload(x, fv, VSTR))
    r = x.call(w.st, w.k.prog.fn(PC + "extract_mx_content"), [x.alloc(w.st, w.data), src, x.alloc(w.st, w.pay)])
    if len(r) != 1: raise Unsupported("extract_mx_content")
    w.st, q = r[0]
    ok, tx = okv(x, q)
    x.panics = []
    present = Or(isp, And(pf, Or(And(pn, sn), sf)))
    return present, ok, tx, (isp, sp)
def contents(w):
    """what the message holds afterwards, by field of the message and part of the context"""
    x = w.x
    return {n: vpath(x, w.ctx1, n)[1] for n in ("data", "metadata", "temp_data")}
def obj(x, v): return kind(x, v, VOBJ)
def at(w, v, key): return vpath(w.x, v, key)
def same_at(w, a, b, key):
    (p, u), (q, v) = at(w, a, key), at(w, b, key)
    e = veq(w.x, u, v) if u is not UNDEF and v is not UNDEF else False
    return And(Eq(zb(p), zb(q)), Or(Not(p), e))
def untouched(w):
    """condition: the message is as it was (a cleared cache is no difference)"""
    x = w.x
    cs = [same_cache(w)]
    for i, (n, _) in enumerate(w.k.prog.types[w.mt][4][0][2]):
        a, b = w.m0.f[i], w.m1.f[i]
        if n in ("context_arc_cache", "context"): continue
        cs.append(value_same(w, a, b))
    c = contents(w)
    cs += [And(vpath(x, w.ctx1, n)[0], whole_same(w, c[n], v)) for n, v in (("data", w.data), ("metadata", w.meta), ("temp_data", w.temp))]
    cs.append(Not(extra_key(w)))
    return And(*cs)
def value_same(w, a, b):
    if same(a, b): return True
    if isinstance(a, Ref) and isinstance(b, Ref): return value_same(w, w.x.load(w.st, a), w.x.load(w.st, b))
    if isinstance(b, Ite): return ite(b.g, zb(value_same(w, a, b.a)), zb(value_same(w, a, b.b)))
    return veq(w.x, a, b)
def whole_same(w, v, lazy):
    return veq(w.x, v, lazy)
def same_cache(w):
    """the cached view of the context is gone, or as before"""
    i = fidx(w.k.prog, w.mt, "context_arc_cache")
    a, b = w.m0.f[i], w.m1.f[i]
    if same(a, b): return True
    return Or(Eq(w.x.discr(b, w.k.prog), 0), veq(w.x, a, b))
def extra_key(w):
    """the context has a key that it had not"""
    x = w.x
    key = x.lazy_str("CTXKEY")
    named = Or(*[bstr.beq(x, key, Str(n)) for n in ("data", "metadata", "temp_data")])
    return And(Not(named), Not(same_at(w, w.ctx1, val(x, VOBJ, ext.MapV(w.m0.f[fidx(w.k.prog, w.mt, "context")].f[0].base)), key)))
def change_is(w, tgt, old, new):
    """exactly one change is reported: (path of the target, old, new)"""
    x = w.x
    t = w.res
    if t is UNDEF: return False
    if not isinstance(t, Tup) or not isinstance(t.f[1], Vec): raise Unsupported("result of a step")
    v = t.f[1]
    if len(v.e) != 1: return False
    g, c = v.e[0]
    if isinstance(c, Lazy): c = x.expand(c)
    ct = ext.ty_of(x, DF + "Change")
    f = lambda n: c.f[fidx(w.k.prog, ct, n)]
    path = x.deref_all(w.st, f("path"))
    want = intr.concat(x, w.st, [Str("data."), tgt])
    pj, o, n = text_eq(x, path, want), x.deref_all(w.st, f("old_value")), x.deref_all(w.st, f("new_value"))
    return And(g, pj, same_json(w, o, old), same_json(w, n, new))
def text_of(x, v):
    t = payload(x, v, VSTR) if v is not UNDEF else UNDEF
    return text_exp(x, t) if t is not UNDEF else Str("")
def text_exp(x, t):
    if isinstance(t, Lazy): return x.expand(t)
    if isinstance(t, Ite): return Ite(t.g, text_exp(x, t.a), text_exp(x, t.b))
    return t
def text_eq(x, a, b):
    if isinstance(a, Ite): return ite(a.g, zb(text_eq(x, a.a, b)), zb(text_eq(x, a.b, b)))
    if isinstance(b, Ite): return ite(b.g, zb(text_eq(x, a, b.a)), zb(text_eq(x, a, b.b)))
    return True if same(a, b) else bstr.beq(x, a, b)
def same_json(w, a, b):
    if a is UNDEF or b is UNDEF: return False
    return veq(w.x, a, b)
def old_of(w, tgt):
    p, v = at(w, w.data, tgt)
    return ext.vite(w.x, p, v, val(w.x, VNULL)) if v is not UNDEF else val(w.x, VNULL)

# ------------------------------------------------------------------ native probe of a model
def probe(w, step, what):
    x = w.x
    def cand(m):
        c = x.expand(w.cfgv)
        d = mint(m, c.d)
        custom = d == vidx(w.k.prog, c.ty, "Custom")
        cfg = pyjson(x, m, w.input) if custom else w.k.prog.types[c.ty][4][d][0]
        data, meta, pay = (pyjson(x, m, v) for v in (w.data, w.meta, w.pay))
        raw = ""
        src = cfg.get("source") if isinstance(cfg, dict) else None
        if step in ("parse", "validate") and isinstance(src, str):
            if src == "payload":
                if isinstance(pay, str): raw, pay = pay, "@SRC@"
            elif isinstance(data, dict) and src in data:
                f = data[src]
                if isinstance(f, dict) and isinstance(f.get("mx_message"), str): raw, f["mx_message"] = f["mx_message"], "@SRC@"
                elif isinstance(f, str): raw, data[src] = f, "@SRC@"
        if step == "publish" and isinstance(src, str) and isinstance(data, dict) and src in data and src != cfg.get("target"):
            raw = json.dumps(data[src]); data[src] = "@MSG@"
        elif step == "publish" and isinstance(src, str) and isinstance(data, dict) and src in data: raw = json.dumps(data[src]); data[src] = "@MSG@"
        if step == "generate": raw, pay = json.dumps(pay), "@SCN@"
        conf = f"Some({rjson(cfg)})" if custom else "None"
        return dict(expr=f"probe({rust_str(step)}, {conf}, {rust_str('' if custom else cfg)}, {rjson(data)}, {rjson(meta)}, {rjson(pay)}, {rust_str(raw)})", expect=[],
                    ident={"what": f"{step}: {what}", "configuration": json.dumps(cfg)[:150], "data": json.dumps(data)[:150], "metadata": json.dumps(meta)[:80], "payload": json.dumps(pay)[:80], "text": raw[:100]})
    return cand

# ------------------------------------------------------------------ the four steps
def common(w, step, ok_spec, tgt, new, metakey):
    """claims shared by the steps; new: the value stored (or None: compared by the caller), metakey: the metadata entry written (or None)"""
    k, x = w.k, w.x
    P = lambda what: probe(w, step, what)
    B = w.base
    c = contents(w)
    d1 = c["data"]
    k.ob(x, B + [zb(w.ok) != zb(ok_spec)], P("succeeds or fails"))
    k.ob(x, B + [Not(w.ok), Not(untouched(w))], P("message after a failure"))
    p, stored = at(w, d1, tgt)
    if new is not None: k.ob(x, B + [w.ok, ok_spec, Not(And(p, same_json(w, stored, new)))], P("value stored"))
    K = x.lazy_str("ANYKEY")
    other = Not(bstr.beq(x, K, tgt))
    k.ob(x, B + [w.ok, ok_spec, other, Not(And(obj(x, d1), same_at(w, d1, w.data, K)))], P("other fields of the data"))
    if metakey is None: k.ob(x, B + [w.ok, ok_spec, Not(whole_same(w, c["metadata"], w.meta))], P("metadata"))
    else:
        M = x.lazy_str("METAKEY")
        k.ob(x, B + [w.ok, ok_spec, Not(bstr.beq(x, M, metakey)), Not(And(obj(x, c["metadata"]), same_at(w, c["metadata"], w.meta, M)))], P("other metadata"))
    k.ob(x, B + [w.ok, ok_spec, Not(And(whole_same(w, c["temp_data"], w.temp), Not(extra_key(w))))], P("rest of the context"))
    rest = [value_same(w, w.m0.f[i], w.m1.f[i]) for i, (n, _) in enumerate(k.prog.types[w.mt][4][0][2]) if n not in ("context", "context_arc_cache")]
    k.ob(x, B + [w.ok, ok_spec, Not(And(*rest))], P("rest of the message"))
    ci = fidx(k.prog, w.mt, "context_arc_cache")
    k.ob(x, B + [w.ok, ok_spec, Not(Eq(x.discr(w.m1.f[ci], k.prog), 0))], P("cached view of the context"))
    k.ob(x, B + [w.ok, ok_spec, Not(change_is(w, tgt, old_of(w, tgt), stored))], P("change reported"))
    k.wit(x, B + [w.ok, ok_spec]); k.wit(x, B + [Not(w.ok)])
    return c
def textlen(k, step): return (24 if k.C.thorough else 16) if step == "parse" else 64 if k.C.thorough else 28
def setup(k, step, logging):
    w = world(k, logging, textlen(k, step))
    s, src = param(w, "source"); t, tgt = param(w, "target")
    w.s, w.src, w.t, w.tgt = s, src, t, tgt
    return w
def read_spec(w, tx):
    """reading the text as the parse step must: (succeeds, JSON form, type)"""
    x = w.x
    env = w.env_of(tx)
    g, m = w.from_xml.at(tx)
    jok, j = each(x, m, lambda u: ext.jsonform(x, w.st, u, ext.ty_of(x, MSG)))
    ty1 = each_sel(x, m, lambda u: pick(x, w.doc_sel(u)))
    tok, ty = w.type_of.at(tx)
    dok, dj = w.doc_json.at(tx, ty)
    return env, ite(env, zb(And(g, jok)), zb(And(tok, dok))), ext.vite(x, env, j, dj), ext.vite(x, env, ty1, ty), (g, And(tok, dok))
def each(x, m, f):
    if isinstance(m, Ite):
        (a, u), (b, v) = each(x, m.a, f), each(x, m.b, f)
        return ite(m.g, zb(a), zb(b)), ext.vite(x, m.g, u, v)
    return f(m)
def each_sel(x, m, f):
    if isinstance(m, Ite): return ext.vite(x, m.g, each_sel(x, m.a, f), each_sel(x, m.b, f))
    return f(m)
def pick(x, sel):
    v = Str(sel[-1][0][0])
    for e, c in sel[:-1]: v = ite(c, Str(e[0]), v)
    return v
def parse(k, logging):
    w = setup(k, "parse", logging); x = w.x
    present, eok, tx, _ = source_text(w, w.src)
    t2 = ext._replace(x, w.st, None, [tx, Str("\\n"), Str("\n")], None)
    env, rok, j, ty, _ = read_spec(w, t2)
    run(w, "parse")
    spec = And(w.s, w.t, present, eok, rok, obj(x, w.data), obj(x, w.meta))
    c = common(w, "parse", spec, w.tgt, j, w.tgt)
    P = lambda what: probe(w, "parse", what)
    p, mv = at(w, c["metadata"], w.tgt)
    pt, tv = at(w, mv, "message_type"); pf, fv = at(w, mv, "format")
    good = And(p, obj(x, mv), pt, kind(x, tv, VSTR), text_eq(x, text_of(x, tv), ty), pf, kind(x, fv, VSTR), text_eq(x, text_of(x, fv), Str("json")))
    k.ob(x, w.base + [w.ok, spec, Not(good)], P("metadata of the target"))
    k.wit(x, w.base + [spec, env]); k.wit(x, w.base + [spec, Not(env)])
    k.C.samples.append({"step": "parse", "logging": logging, "text bytes": w.N})
def validate(k, logging):
    w = setup(k, "validate", logging); x = w.x
    present, eok, tx, _ = source_text(w, w.src)
    env, _, _, _, (a, b) = read_spec(w, tx)
    readable = ite(env, zb(a), zb(b))
    run(w, "validate")
    spec = And(w.s, w.t, present, eok, obj(x, w.data), obj(x, w.meta))
    c = common(w, "validate", spec, w.tgt, None, Str("validation"))
    P = lambda what: probe(w, "validate", what)
    p, v = at(w, c["data"], w.tgt)
    pv, vv = at(w, v, "valid"); pe, ev = at(w, v, "errors")
    shape = And(p, obj(x, v), pv, kind(x, vv, VBOOL), pe, kind(x, ev, VARR))
    k.ob(x, w.base + [w.ok, spec, Not(shape)], P("shape of the verdict"))
    b_ = payload(x, vv, VBOOL); es = payload(x, ev, VARR)
    if isinstance(es, Lazy): es = x.expand(es)
    n = count_vec(es)
    k.ob(x, w.base + [w.ok, spec, shape, zb(b_) != zb(readable)], P("verdict"))
    k.ob(x, w.base + [w.ok, spec, shape, zb(Not(n)) != zb(readable)], P("errors of the verdict"))
    pm, mv = at(w, c["metadata"], "validation"); pd, dv = at(w, mv, "validated")
    k.ob(x, w.base + [w.ok, spec, Not(And(pm, obj(x, mv), pd, kind(x, dv, VBOOL), payload(x, dv, VBOOL)))], P("validation metadata"))
    k.wit(x, w.base + [spec, env, readable]); k.wit(x, w.base + [spec, Not(env), readable]); k.wit(x, w.base + [spec, Not(readable)])
    k.C.samples.append({"step": "validate", "logging": logging, "text bytes": w.N})
def count_vec(v):
    """the list holds something"""
    if isinstance(v, Ite): return ite(v.g, zb(count_vec(v.a)), zb(count_vec(v.b)))
    if isinstance(v, Vec): return Or(*[g for g, _ in v.e])
    if isinstance(v, Arr): return len(v.f) > 0
    raise Unsupported(f"list expected, got {type(v).__name__}")
def publish(k, logging):
    w = setup(k, "publish", logging); x = w.x
    p, sv = at(w, w.data, w.src)
    tx = ext.jsontext(x, sv)
    ok, m = okv(x, ext.read_text(x, w.st, "json", ext.ty_of(x, MSG), tx, [False]))
    wok, out = each(x, m, lambda u: w.to_xml.at(message_of(x, w.st, u)))
    run(w, "publish")
    spec = And(w.s, w.t, obj(x, w.data), p, ok, wok)
    common(w, "publish", spec, w.tgt, val(x, VSTR, out), None)
    k.C.samples.append({"step": "publish", "logging": logging})
def generate(k, logging):
    w = setup(k, "generate", logging); x = w.x
    run(w, "generate")
    gok, g = okv(x, ext._gen_new(x, w.st, None, [w.pay], None))
    runs = [(And(ok, pc), v) for u, ok, v, pc in x.memo.get("generated", []) if same(u, g)]
    spec = And(w.t, gok, Or(*[c for c, _ in runs]), obj(x, w.data))
    c = common(w, "generate", spec, w.tgt, None, None)
    p, v = at(w, c["data"], w.tgt)
    k.ob(x, w.base + [w.ok, spec, Not(And(p, Or(*[And(q, same_json(w, v, u)) for q, u in runs])))], probe(w, "generate", "value stored"))
    k.C.samples.append({"step": "generate", "logging": logging})
FN = {"parse": parse, "validate": validate, "publish": publish, "generate": generate}

# ------------------------------------------------------------------ C18
def misconfigured(k, a):
    step, logging = a
    w = setup(k, step, logging); x = w.x
    present = True
    if step in ("parse", "validate"): present, eok, tx, (isp, sp) = source_text(w, w.src); present = ite(isp, z3.BoolVal(True), zb(present))
    if step == "publish": present = at(w, w.data, w.src)[0]
    run(w, step)
    P = lambda what: probe(w, step, what)
    B = w.base
    for p in w.panics: k.ob(x, list(p.pc), P("panic: " + p.msg))
    bad = {"configuration of another kind": Not(w.custom), "target missing or no text": And(w.custom, Not(w.t)), "data is no object": Not(obj(x, w.data))}
    if step != "generate": bad |= {"source missing or no text": And(w.custom, Not(w.s)), "source absent or without text": And(w.s, Not(present))}
    if step in ("parse", "validate"): bad["metadata is no object"] = Not(obj(x, w.meta))
    un = untouched(w)
    for n, c in bad.items():
        k.ob(x, B + [c, w.ok], P(n + ", accepted"))
        k.ob(x, B + [c, Not(un)], P(n + ", message changed"))
        k.wit(x, B + [c])
    k.C.samples.append({"step": step, "logging": logging, "panic conditions": len(w.panics)})

# ------------------------------------------------------------------ native side
DEPS = 'dataflow-rs = "*"\ndatalogic-rs = "*"\ndatafake-rs = "*"\nasync-trait = "*"\ntracing = "*"\n'
PRE = r"""
use dataflow_rs::engine::{AsyncFunctionHandler, message::{Message, Change}, FunctionConfig}; use mx_message::plugin::*; use std::sync::Arc;
struct Log;
struct Vis(String);
impl tracing::field::Visit for Vis { fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) { self.0 += &format!("{v:?}"); } }
impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true } fn new_span(&self, s: &tracing::span::Attributes<'_>) -> tracing::span::Id { s.record(&mut Vis(String::new())); tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {} fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) { e.record(&mut Vis(String::new())); } fn enter(&self, _: &tracing::span::Id) {} fn exit(&self, _: &tracing::span::Id) {} }
fn drive(step: &str, cfg: &FunctionConfig, msg: &mut Message) -> Result<Vec<Change>, String> {
    let h: Box<dyn AsyncFunctionHandler + Send + Sync> = match step { "parse" => Box::new(Parse), "validate" => Box::new(Validate), "publish" => Box::new(Publish), _ => Box::new(Generate) };
    let mut f = h.execute(msg, cfg, Arc::new(datalogic_rs::DataLogic::new()));
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..4 { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r.map(|(_, c)| c).map_err(|e| e.to_string()) } }
    panic!("the step waits") }
fn param(c: &Option<Value>, n: &str) -> Option<String> { c.as_ref()?.get(n)?.as_str().map(str::to_string) }
fn source(m: &Message, s: &str) -> Option<String> {
    if s == "payload" { return Some(match m.payload.as_str() { Some(t) => t.to_string(), None => return extract_mx_content(m.data(), s, &m.payload).ok() }) }
    let f = m.data().get(s)?; f.get("mx_message").and_then(Value::as_str).or(f.as_str()).map(str::to_string) }
fn enveloped(t: &str) -> bool { t.contains("<AppHdr") || t.contains("<Envelope") }
fn short_of(d: &Document) -> String { let j = serde_json::to_value(d).unwrap(); let k = j.as_object().unwrap().keys().next().unwrap().clone(); TYPES.iter().find(|t| element(t) == k).unwrap().to_string() }
fn readable(t: &str) -> Option<(Value, String)> {
    if enveloped(t) { let m = MxMessage::from_xml(t).ok()?; return Some((serde_json::to_value(&m).ok()?, short_of(&m.document))) }
    let ty = extract_message_type_from_xml(t).ok()?; Some((xml_to_json_via_document(t, &ty).ok()?, ty)) }
enum Want { Fail, Data(Value), Parsed(Value, String), Verdict(bool) }
fn want(step: &str, cfg: &Option<Value>, m: &Message) -> Want {
    let f = || -> Option<Want> {
        let t = param(cfg, "target")?;
        if !m.data().is_object() { return None }
        if step == "generate" { return Some(Want::Data(datafake_rs::DataGenerator::from_value((*m.payload).clone()).ok()?.generate().ok()?)) }
        let s = param(cfg, "source")?;
        if step == "publish" { return Some(Want::Data(Value::String(MxMessage::from_json(&m.data().get(&s)?.to_string()).ok()?.to_xml().ok()?))) }
        let x = source(m, &s)?;
        if !m.metadata().is_object() { return None }
        if step == "parse" { let (v, ty) = readable(&x.replace("\\n", "\n"))?; return Some(Want::Parsed(v, ty)) }
        Some(Want::Verdict(readable(&x).is_some())) };
    f().unwrap_or(Want::Fail) }
fn one(step: &str, cfg: &Option<Value>, kind: &str, m0: &Message) -> Vec<String> {
    let mut bad = vec![];
    let c: FunctionConfig = match cfg { Some(i) => serde_json::from_value(json!({"name": format!("{step}_mx"), "input": i})).unwrap(),
        None => serde_json::from_value(if kind == "Map" { json!({"name": "map", "input": {"mappings": []}}) } else { json!({"name": "validation", "input": {"rules": []}}) }).unwrap() };
    if cfg.is_some() != matches!(c, FunctionConfig::Custom { .. }) { return bad }
    let w = want(step, cfg, m0);
    let mut m = m0.clone(); let _ = m.get_context_arc();
    let r = match catch(|| drive(step, &c, &mut m)) { None => return vec!["panic".to_string()], Some(r) => r };
    let (ctx0, ctx1) = (m0.context.clone(), m.context.clone());
    if (&m.id, &m.payload, m.errors.len(), m.audit_trail.len()) != (&m0.id, &m0.payload, m0.errors.len(), m0.audit_trail.len()) { bad.push("the rest of the message".to_string()) }
    if *m.get_context_arc() != m.context { bad.push("stale view of the context".to_string()) }
    let tgt = param(cfg, "target").unwrap_or_default();
    match (&w, r) {
        (Want::Fail, Ok(_)) => bad.push("accepted".to_string()),
        (Want::Fail, Err(_)) => if ctx0 != ctx1 { bad.push("message changed by a failure".to_string()) },
        (_, Err(e)) => bad.push(format!("refused: {e}")),
        (w, Ok(ch)) => {
            let stored = ctx1["data"].get(&tgt).cloned();
            let mut exp = ctx0.clone();
            match w {
                Want::Data(v) => exp["data"][&tgt] = v.clone(),
                Want::Parsed(v, ty) => { exp["data"][&tgt] = v.clone(); exp["metadata"][&tgt] = json!({"message_type": ty, "format": "json"}); }
                Want::Verdict(ok) => {
                    exp["data"][&tgt] = stored.clone().unwrap_or_default(); exp["metadata"]["validation"] = ctx1["metadata"]["validation"].clone();
                    let v = stored.clone().unwrap_or_default();
                    if v["valid"] != json!(ok) { bad.push(format!("verdict {} for a text that can{} be read", v["valid"], if *ok { "" } else { "not" })) }
                    if v["errors"].as_array().map(|a| a.is_empty()) != Some(*ok) { bad.push("errors of the verdict".to_string()) }
                    if ctx1["metadata"]["validation"]["validated"] != json!(true) { bad.push("validation metadata".to_string()) } }
                Want::Fail => {} }
            if exp != ctx1 { bad.push(format!("context is {} instead of {}", cut(&ctx1), cut(&exp))) }
            if ch.len() != 1 || *ch[0].path != *format!("data.{tgt}") || *ch[0].old_value != ctx0["data"].get(&tgt).cloned().unwrap_or_default() || Some(&*ch[0].new_value) != stored.as_ref() { bad.push(format!("changes {}", cut(&json!(ch)))) }
        } }
    bad }
fn cut(v: &Value) -> String { v.to_string().chars().take(300).collect() }
fn fill(v: &Value, mark: &str, with: &Value) -> Value { match v { Value::String(s) if s == mark => with.clone(), Value::Array(a) => a.iter().map(|e| fill(e, mark, with)).collect(), Value::Object(o) => Value::Object(o.iter().map(|(k, e)| (k.clone(), fill(e, mark, with))).collect()), _ => v.clone() } }
fn candidates(raw: &str) -> Vec<String> {
    let mut o = vec![raw.to_string()];
    for t in TYPES { for b in [body(t), embed(&body(t), raw)] { for h in [hdr(), embed(&hdr(), raw)] {
        o.push(format!("<Envelope><AppHdr>{h}</AppHdr><Document>{b}</Document></Envelope>"));
        if *t == "pacs.004" { o.push(format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Envelope xmlns=\"a\">\n<AppHdr xmlns=\"b\">{h}</AppHdr>\n<Document xmlns=\"c\">{b}</Document>\n</Envelope>\n")); o.push(format!("<RequestPayload><AppHdr>{h}</AppHdr><Document>{b}</Document></RequestPayload>")); o.push(format!("<Envelope>{b}</Envelope>")); o.push(format!("<AppHdr>{h}</AppHdr>")); } }
        o.push(format!("<Document>{b}</Document>")); o.push(format!("<Document xmlns=\"urn:iso:std:iso:20022:tech:xsd:{}\">{b}</Document>", t)); }
        if *t == "pacs.004" { let b = body(t); o.push(format!("{raw}<Document>{b}</Document>")); o.push(format!("<Document>{b}</Document>{raw}")); o.push(format!("<Document>\\n{b}\\n</Document>")); o.push(format!("\\n<Document>{b}</Document>")); o.push(format!("<?xml version=\"1.0\"?>\\n<Envelope>\\n<AppHdr>{}</AppHdr>\\n<Document>\\n{b}</Document></Envelope>", hdr())); o.push(format!("<Document></Document>{b}")); o.push(b); } }
    o }
fn messages(raw: &str) -> Vec<Value> {
    let mut o: Vec<Value> = serde_json::from_str(raw).into_iter().collect();
    for t in TYPES { if let Some(d) = read(t, &body(t)) { let m = MxMessage::new(hv(), d); let v = serde_json::to_value(&m).unwrap(); if *t == "pacs.004" { o.push(json!(v.to_string())); o.push(json!(m.to_xml().unwrap_or_default())); o.push(json!({"mx_message": v})); o.push(json!({"json_data": v})); let mut u = v.clone(); u["extra"] = json!(1); o.push(u); let mut u = v.clone(); u.as_object_mut().unwrap().remove("AppHdr"); o.push(u); } o.push(v); } }
    o }
fn scenarios(raw: &str) -> Vec<Value> {
    let mut o: Vec<Value> = serde_json::from_str(raw).into_iter().collect();
    for s in [json!({"schema": {"a": "b", "n": {"c": [1, 2]}}}), json!({"schema": "text"}), json!({"schema": 7}), json!({"schema": null}), json!({"variables": {"v": 1}, "schema": {"a": {"var": "v"}}}), json!({"schema": {"a": {"fake": ["nonsense"]}}}), json!("x"), json!({})] { o.push(s) }
    let inner = o.clone(); for s in &inner { o.push(json!(s.to_string())) }
    o }
fn probe(step: &str, cfg: Option<Value>, kind: &str, data: Value, meta: Value, pay: Value, raw: &str) -> Value {
    let mut bad = vec![];
    let (mark, with): (&str, Vec<Value>) = match step { "publish" => ("@MSG@", messages(raw)), "generate" => ("@SCN@", scenarios(raw)), _ => ("@SRC@", candidates(raw).into_iter().map(Value::String).collect()) };
    for v in with {
        let mut m = Message::new(Arc::new(fill(&pay, mark, &v)));
        m.context["data"] = fill(&data, mark, &v); m.context["metadata"] = meta.clone(); m.context["temp_data"] = json!({"kept": 1});
        for logging in [false, true] {
            let r = if logging { tracing::subscriber::with_default(Log, || one(step, &cfg, kind, &m)) } else { one(step, &cfg, kind, &m) };
            if !r.is_empty() { bad.push(json!({"wrong": r, "message": cut(&m.context), "payload": cut(&m.payload), "configuration": cfg, "logging": logging})) } }
        if bad.len() > 1 { break }
    }
    bad.truncate(2); json!(bad) }
"""
def prelude14():
    return "\n".join([prelude(), "const TYPES: &[&str] = &[" + ", ".join(rust_str(e[0]) for e in CAT) + "];", PRE])
def jobs(*steps): return lambda k: [(FN[s], lg) for s in steps for lg in (False, True)]
def bounds(k):
    k.C.bounds = {"message": "any JSON data, metadata and payload", "source text": f"any text of at most {textlen(k, '')} bytes (parse step: {textlen(k, 'parse')})", "parameters": "any value; names of at most 12 bytes", "readers, writers, generator": "any outcome, the same for the same argument", "logging": "on and off"}
def c14(k): bounds(k); return jobs("parse")(k)
def c15(k): bounds(k); return jobs("validate")(k) + [(text.validate_text, None)]
def c16(k): bounds(k); return jobs("publish")(k)
def c17(k): bounds(k); return jobs("generate")(k)
def c18(k): bounds(k); return [(misconfigured, (s, lg)) for s in STEPS for lg in (False, True)]
JOBS = {"C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
def work(job):
    mode, i, dump, thorough = job
    C = chk.Check(mode)
    k = TCtx(C, Prog(os.path.join(dump, "core.json")))
    f, a = JOBS[mode](k)[i]
    import time; t0 = time.time(); guard(C, f, k, a)
    if os.environ.get("VERIF_TIMES"): print(f"  {f.__name__} {str(a)[:60]}: {time.time() - t0:.0f}s", flush=True)
    for x in k.xs: C.absorb_x(x)
    return {n: getattr(C, n) for n in ("obligations", "discharged", "unknown", "queries", "solver_s", "witnesses", "stmts", "states", "edges", "functions", "contracts", "candidates", "uncovered", "samples", "notes")}
def main(mode):
    C = chk.Check(mode)
    out, t = build.dump(["core"], shards=1)
    C.cov["dump_s"] = round(t, 1)
    C.assumptions = ["reading, writing and converting messages are functions of their arguments (their meaning is the subject of C11, C12, C19 and C20)", "datafake-rs answers as a function of the scenario", "the message's context is an object with data, metadata and temporary data, as its constructor makes it"]
    k = TCtx(C, None)
    n = len(JOBS[mode](k))
    for r in chk.pool_map(work, [(mode, i, out, C.thorough) for i in range(n)]):
        C.absorb(r); C.notes += r["notes"]
    if C.candidates: chk.confirm_probes(C, C.candidates, prelude14(), DEPS)
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
