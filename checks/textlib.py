"""Shared by the checks of text handling: well-formed layouts, model texts, native probes."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3, bstr, ext, intr, chk, vspec
from bstr import BS, first, last, lit_pat, name, nameb, ple, plt, padd, peq, P, trim_lo, trim_hi, WSP, as_bs
from rope import Rope
from val import *
from sym import State, Unsupported
from chk import mint, mbool, rust_str
from core import Ctx, guard
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = json.load(open(os.path.join(ROOT, "spec/catalogue.json")))["entries"]
HDR = "header::bah_pacs_008_001_08::BusinessApplicationHeaderV02"
def module(e): return "document::" + e[1].replace(".", "_")
def variant(e): return e[0].replace(".", "").capitalize()
BODY = {module(e) + "::" + e[2]: e for e in CAT}

class TCtx(Ctx):
    """like Ctx, with byte-string executions"""
    def X(self, **k):
        x = ext.mk(self.prog, **k)
        x.memo["xml_name"] = xml_name
        self.xs.append(x)
        return x
    def ob(self, x, cs, cand, timeout_ms=120000):
        C = self.C
        C.obligations += 1
        r, m = bstr.impossible(x, [zb(c) if is_z(c) else c for c in cs], timeout_ms)
        if r == "unsat": C.discharged += 1; return True
        if r != "sat": C.unknown += 1; C.uncovered.append(f"solver gave up: {m}"); return None
        m = full_model(x, cs, m)
        c = cand(m) if m is not None else None
        if c: C.candidates.append(c)
        return False
    def wit(self, x, cs):
        if bstr.prove_bv(x, cs)[0] == "sat": self.C.witnesses += 1
        else: self.C.notes.append("a reachability witness was not found")
def xml_name(t): return t[1].split("::")[-1]

def full_model(x, cs, m):
    """a model of all axioms that agrees with m on the texts (m may leave out definitions of no importance)"""
    global TAC
    s = z3.Then("simplify", "bit-blast", "sat").solver()
    s.set("timeout", 120000)
    s.add(*x.axioms); s.add(*[c for c in cs if is_z(c)])
    for d in m.decls():
        if d.arity() == 0 and "!" not in d.name(): s.add(d() == m[d])
    if s.check() == z3.sat: return s.model()
    s = z3.Then("simplify", "bit-blast", "sat").solver()
    s.set("timeout", 120000)
    s.add(*x.axioms); s.add(*[c for c in cs if is_z(c)])
    return s.model() if s.check() == z3.sat else None

def whole(B): return BS(B, 0, B.n)
def pyt(b): return b.decode("utf8", "replace")
def mtext(m, B): return pyt(B.text(m))
def window(m, b):
    """(lo, hi) of a window in a model"""
    return bstr.pv(m, b.lo), bstr.pv(m, b.hi)

# ------------------------------------------------------------------ layouts
def after_tag(B, p, L):
    """the byte at p + L ends a tag name"""
    return B.at(padd(p, L), lambda k: Or(*[B.is_(k, c) for c in (0x3E, 32, 9, 10, 13)]))
class Tag:
    """the only <tag …> … </tag> of a text: conditions, content window"""
def tag(x, B, t):
    key = ("tag", B.name, t)
    if key in x.memo: return x.memo[key]
    W, r = whole(B), Tag()
    o, c = lit_pat("<" + t), lit_pat(f"</{t}>")
    r.has, p = first(W, o); r.has = nameb(x, r.has); r.open = name(x, r.has, p)
    r.hasc, q = first(W, c); r.hasc = nameb(x, r.hasc); r.close = name(x, r.hasc, q)
    lo, lq = name(x, True, last(W, o)[1]), name(x, True, last(W, c)[1])
    g, gp = first(BS(B, r.open, B.n), lit_pat(">"))
    r.gt = name(x, g, gp)
    inside = lambda k: And(plt(r.open, k), plt(k, r.gt))
    par = z3.BoolVal(False); bad = []
    for k in range(B.N):
        par = z3.Xor(par, zb(And(inside(k), B.is_(k, 0x22))))
        bad.append(And(inside(k), Or(B.is_(k, 0x3C), B.is_(k, 0x27))))
    noself = Not(B.at(bstr.psub(r.gt, 1), lambda k: B.is_(k, 0x2F)))
    r.wf = nameb(x, And(r.has, r.hasc, nameb(x, g), peq(r.open, lo), peq(r.close, lq), after_tag(B, r.open, len(t) + 1), Not(nameb(x, par)), Not(Or(*bad)), noself, plt(r.gt, r.close)))
    r.end = padd(r.close, len(t) + 3)
    r.content = BS(B, name(x, True, padd(r.gt, 1)), r.close)
    x.memo[key] = r
    return r
def plain(x, B, before=None):
    """no comments, sections or instructions, other than a declaration that starts the text and ends before the position"""
    if before is None: before = B.n
    W = whole(B)
    f, p = first(W, lit_pat("<?")); l = last(W, lit_pat("<?"))[1]
    e, ep = first(W, lit_pat("?>"))
    decl = Or(Not(f), And(peq(name(x, f, p), 0), peq(name(x, True, l), 0), e, plt(name(x, e, ep), before)))
    return nameb(x, And(Not(first(W, lit_pat("<!"))[0]), decl))
def trimmed(x, b):
    lo = trim_lo(x, b, WSP)
    return BS(b.base, lo, trim_hi(x, BS(b.base, lo, b.hi), WSP))
def modtrim(x, a, b):
    """two windows of one base have the same text, apart from white space around it (sufficient condition)"""
    if a.base is not b.base: return False
    if same(a.lo, b.lo) and same(a.hi, b.hi): return True
    s, t = trimmed(x, a), trimmed(x, b)
    return nameb(x, Or(And(peq(a.lo, b.lo), peq(a.hi, b.hi)), And(peq(s.lo, t.lo), peq(s.hi, t.hi)), And(peq(s.lo, s.hi), peq(t.lo, t.hi))))
def root_is(x, b, el):
    """the content, trimmed, starts with the element el"""
    s = trimmed(x, b)
    B = b.base
    return nameb(x, And(bstr.starts(s, lit_pat("<" + el)), after_tag(B, s.lo, len(el) + 1), plt(padd(s.lo, len(el) + 1), s.hi)))

def rope_window(t):
    """(prefix, window, suffix) of a text"""
    if isinstance(t, BS): return "", t, ""
    if isinstance(t, Rope):
        ps = list(t.parts)
        if len(ps) == 3 and isinstance(ps[0], str) and isinstance(ps[1], BS) and isinstance(ps[2], str): return ps[0], ps[1], ps[2]
        if len(ps) == 1 and isinstance(ps[0], BS): return "", ps[0], ""
    raise Unsupported("text handed to a reader has an unknown shape")
def reads(x, ty=None): return [r for r in x.memo.get("reads", []) if (ty is None or r.ty == ty)]
def used(r): return Or(*r.uses)

def windows(x, m, B):
    """the parts of the text that readers are given in a model: (lo, hi, header?, entry, wrapped?)"""
    out = []
    for r in reads(x):
        if r.fmt != "xml" or not mbool(m, used(r)): continue
        try: pre, b, post = rope_window(r.text.t)
        except Unsupported: continue
        if b.base is not B: continue
        lo, hi = window(m, b)
        e = BODY.get(r.ty)
        if e is None and r.ty != HDR: continue
        out.append((lo, hi, r.ty == HDR, e, bool(pre)))
    out.sort(key=lambda w: (w[0], w[1]))
    res = []
    for w in out:
        if not res or w[0] >= res[-1][1]: res.append(w)
    return res
def subst_expr(bs, ws):
    """Rust expression of the text with the windows replaced by valid content"""
    parts, p = [], 0
    for lo, hi, h, e, wrapped in ws:
        parts.append(f"{rust_str(pyt(bs[p:lo]))}.to_string()")
        raw = pyt(bs[lo:hi])
        lead, trail = raw[:len(raw) - len(raw.lstrip())], raw[len(raw.rstrip()):] if raw.strip() else ""
        v = ('hdr()' if wrapped else 'format!("<AppHdr>{}</AppHdr>", hdr())') if h else f"body({rust_str(e[0])})"
        parts += [f"{rust_str(lead)}.to_string()", v, f"{rust_str(trail)}.to_string()"]
        p = hi
    parts.append(f"{rust_str(pyt(bs[p:]))}.to_string()")
    return "[" + ", ".join(parts) + "].concat()"
def texts_expr(x, m, B, more=()):
    """Rust vec of texts to try for a model: as it is, and with valid content in the parts that are read"""
    bs = B.text(m)
    ts = [f"{rust_str(pyt(bs))}.to_string()"]
    ws = windows(x, m, B)
    if ws: ts.append(subst_expr(bs, ws))
    for w in ws: ts.append(subst_expr(bs, [w]))
    for ws in more: ts.append(subst_expr(bs, ws))
    return "vec![" + ", ".join(ts) + "]"

# ------------------------------------------------------------------ native side
def prelude():
    hm, ht = HDR.rsplit("::", 1)
    o = ["""use mx_message::mx_envelope::*; use mx_message::document; use mx_message::xml::*; use mx_message::plugin::common::*;
type Hdr = mx_message::header::AppHdr;
fn inner<T: serde::Serialize>(v: &T) -> String { let s = quick_xml::se::to_string(v).unwrap(); if s.ends_with("/>") { return String::new() } let a = s.find('>').unwrap() + 1; let b = s.rfind("</").unwrap(); s[a..b].to_string() }
fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
fn panics(fs: Vec<(&str, Box<dyn Fn(&str)>)>, ts: Vec<String>) -> Value {
    for t in &ts { for (n, f) in &fs { if catch(|| f(t)).is_none() { return json!({"panic in": n, "text": t}) } } } json!(null) }
fn embed(inner: &str, raw: &str) -> String { // the raw text, without markup, in the first text of the content
    let raw: String = raw.chars().map(|c| if c == '<' || c == '&' { '.' } else { c }).collect();
    let mut i = 0; while let Some(p) = inner[i..].find('>') { let a = i + p + 1; if a < inner.len() && !inner[a..].starts_with('<') { let b = a + inner[a..].find('<').unwrap_or(0); return format!("{}{}{}", &inner[..a], raw, &inner[b..]) } i = a; } inner.to_string() }
fn attr(t: &str, a: &str) -> Option<String> { let p = format!("{}=\\"", a); let i = t.find(&p)? + p.len(); let j = i + t[i..].find('"')?; Some(t[i..j].to_string()) }
fn ws(raw: &str) -> (&str, &str) { let t = raw.trim(); if t.is_empty() { return (raw, "") } let i = raw.find(t).unwrap(); (&raw[..i], &raw[i + t.len()..]) }
fn hvars(raw: &str) -> Vec<String> { let (l, t) = ws(raw); vec![hdr(), format!("{l}{}{t}", hdr()), raw.to_string(), embed(&hdr(), raw), format!("{}{raw}", hdr())] }
fn bvars(short: &str, raw: &str) -> Vec<String> {
    if short.is_empty() { return vec![raw.to_string(), embed(&body("pacs.004"), raw)] }
    let (l, t) = ws(raw); let v = body(short); let el = element(short);
    let mut o = vec![v.clone(), format!("{l}{v}{t}"), raw.to_string(), embed(&v, raw)];
    if let Some(g) = raw.find('>') { let open = &raw[..g + 1]; if !open.ends_with("/>") { let a = v.find('>').unwrap() + 1; o.push(format!("{open}{}{t}", &v[a..])); o.push(format!("{open}{}</{el}>{t}", embed(&v[a..v.rfind("</").unwrap()], &raw[g + 1..]))); } }
    o }
fn envelope(pre: &str, h: &str, mid: &str, b: &str, post: &str, short: &str) -> Value {
    let mut bad = vec![];
    for hh in hvars(h) { for bb in bvars(short, b) {
        let t = [pre, &hh, mid, &bb, post].concat();
        if read(short, &bb).is_some() != read(short, bb.trim()).is_some() || quick_xml::de::from_str::<Hdr>(&format!("<AppHdr>{hh}</AppHdr>")).is_ok() != quick_xml::de::from_str::<Hdr>(&format!("<AppHdr>{}</AppHdr>", hh.trim())).is_ok() { continue }
        let want = match (quick_xml::de::from_str::<Hdr>(&format!("<AppHdr>{hh}</AppHdr>")).ok(), read(short, bb.trim())) { (Some(h), Some(d)) => Some(MxMessage { xmlns: attr(&t, "xmlns"), xmlns_xsi: attr(&t, "xmlns:xsi"), app_hdr: h, document: d }), _ => None };
        match catch(|| MxMessage::from_xml(&t)) {
            None => bad.push(json!({"text": t, "is": "panic"})),
            Some(got) => { let got = got.ok(); if got != want { bad.push(json!({"text": t, "differs in": [got.is_some() != want.is_some(), got.as_ref().map(|m| &m.app_hdr) != want.as_ref().map(|m| &m.app_hdr), got.as_ref().map(|m| &m.document) != want.as_ref().map(|m| &m.document), got.as_ref().map(|m| (&m.xmlns, &m.xmlns_xsi)) != want.as_ref().map(|m| (&m.xmlns, &m.xmlns_xsi))], "order": "accepted, header, document, namespaces"})) } } }
    } }
    bad.truncate(2); json!(bad) }
fn all_err(ts: Vec<String>) -> Value { for t in &ts { if !matches!(catch(|| MxMessage::from_xml(t).is_err()), Some(true)) { return json!({"accepted": t}) } } json!(null) }
fn conv(pre: &str, raw: &str, post: &str, short: &str) -> Value {
    let mut bad = vec![];
    for b in bvars(short, raw) {
        let t = [pre, &b, post].concat();
        if read_json(short, &b).is_some() != read_json(short, b.trim()).is_some() { continue }
        let want = read_json(short, b.trim()).map(|v| json!({"Document": {element(short): v}}));
        match catch(|| xml_to_json_via_document(&t, short)) { None => bad.push(json!({"text": t, "is": "panic"})), Some(got) => { if got.ok() != want { bad.push(json!({"text": t, "type": short})) } } }
    }
    bad.truncate(2); json!(bad) }"""]
    o.append(f"fn hv() -> Hdr {{ {vspec.rust_value(hm, ht, vspec.good(hm, ht))} }}\nfn hdr() -> String {{ inner(&hv()) }}")
    o.append("fn body(short: &str) -> String { match short { " + " ".join(f'{rust_str(e[0])} => format!("<{e[3]}>{{}}</{e[3]}>", inner(&{vspec.rust_value(module(e), e[2], vspec.good(module(e), e[2]))})),' for e in CAT) + ' _ => "<Unknown/>".to_string() } }')
    o.append("fn element(short: &str) -> &'static str { match short { " + " ".join(f"{rust_str(e[0])} => {rust_str(e[3])}," for e in CAT) + ' _ => "" } }')
    o.append("fn read(short: &str, t: &str) -> Option<Document> { match short { " + " ".join(f"{rust_str(e[0])} => quick_xml::de::from_str::<{module(e)}::{e[2]}>(t).ok().map(|v| Document::{variant(e)}(Box::new(v)))," for e in CAT) + " _ => None } }")
    o.append("fn read_json(short: &str, t: &str) -> Option<Value> { match short { " + " ".join(f"{rust_str(e[0])} => quick_xml::de::from_str::<{module(e)}::{e[2]}>(t).ok().and_then(|v| serde_json::to_value(&v).ok())," for e in CAT) + " _ => None } }")
    return "\n".join(o)
