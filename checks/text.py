"""C10 (no panic), C11 (reading envelopes), C13 (peeking), C19 (source text, message type), C20 (document-only conversion)."""
from textlib import *
import build
from mir import Prog

# ------------------------------------------------------------------ C10
ENTRY = {   # function: arguments of the native call ({} is the text)
    "mx_envelope::MxMessage::from_xml": "let _ = MxMessage::from_xml(t);",
    "xml::xml_to_json_via_document": "for s in TYPES { let _ = xml_to_json_via_document(t, s); } let _ = xml_to_json_via_document(t, \"x\");",
    "xml::from_mx_xml_envelope_str": "for s in TYPES { let _ = from_mx_xml_envelope_str(t, s); }",
    "xml::from_mx_xml_to_json": "let _ = from_mx_xml_to_json(t);",
    "plugin::common::extract_message_type_from_xml": "let _ = extract_message_type_from_xml(t);",
    "plugin::common::map_document_element_to_message_type": "let _ = map_document_element_to_message_type(t);",
    "mx_envelope::peek_message_type_from_xml": "let _ = peek_message_type_from_xml(t);",
    "mx_envelope::peek_message_type_from_json": "let _ = peek_message_type_from_json(t);",
    "mx_envelope::normalize_message_type": "let _ = normalize_message_type(t);",
    "mx_envelope::get_namespace_for_message_type": "let _ = get_namespace_for_message_type(t);",
}
TYPES = "const TYPES: &[&str] = &[" + ", ".join(rust_str(e[0]) for e in CAT) + "];"
def no_panic(k, path):
    C, prog = k.C, k.prog
    f = prog.fn(path)
    if f is None: raise Unsupported(f"{path} is not in the tree")
    N = size(C)
    x = k.X(); st = State()
    B, t = bstr.new_text(x, "T", N)
    args = [t] + [bstr.new_text(x, f"A{i}", 16)[1] for i in range(1, f.argc)]
    r = x.call(st, f, args)
    k.done(x, path)
    for p in list(x.panics):
        def cand(m, p=p):
            return dict(expr=f"panics(vec![({rust_str(path)}, Box::new(|t: &str| {{ {ENTRY[path]} }}))], {texts_expr(x, m, B)})", expect=None, ident={"what": f"panic in {path.split('::')[-1]}", "how": p.msg, "text": mtext(m, B)})
        k.ob(x, list(p.pc), cand)
    C.samples.append({"function": path, "bytes": N, "panic conditions": len(x.panics), "readers": len(reads(x))})
    if r: k.wit(x, list(r[0][0].pc))
    return path
def size(C): return 160 if C.thorough else 96 if C.pid == "C10" else 80
def c10(k):
    k.C.bounds = {"text": f"every UTF-8 text of at most {size(k.C)} bytes", "other arguments": "at most 16 bytes", "readers": "any outcome"}
    return [(no_panic, p) for p in ENTRY]

# ------------------------------------------------------------------ C11
def from_xml(k):
    key = "from_xml"
    x = k.X(); st = State()
    B, t = bstr.new_text(x, "T", size(k.C))
    f = k.prog.fn("mx_envelope::MxMessage::from_xml")
    if f is None: raise Unsupported("from_xml is not in the tree")
    r = x.call(st, f, [t])
    if len(r) != 1: raise Unsupported(f"from_xml: {[(b, c) for _, b, c in x.unsupported][:3]}")
    k.done(x, "from_xml"); x.panics = []
    st, v = r[0]
    if isinstance(v, Lazy): v = x.expand(v)
    if not isinstance(v, Sum): raise Unsupported("result of from_xml")
    return x, st, B, v
def layout(x, B):
    h, d = tag(x, B, "AppHdr"), tag(x, B, "Document")
    wf = nameb(x, And(h.wf, d.wf, ple(h.end, d.open), plain(x, B, h.open)))
    return h, d, wf
def env_probe(x, m, B, h, d, short, what):
    bs = B.text(m)
    a, b = window(m, h.content); c, e = window(m, d.content)
    p = [pyt(bs[:a]), pyt(bs[a:b]), pyt(bs[b:c]), pyt(bs[c:e]), pyt(bs[e:])]
    return dict(expr=f"envelope({', '.join(rust_str(s) for s in p)}, {rust_str(short)})", expect=[], ident={"what": what, "text": pyt(bs), "type": short})
def err_probe(x, m, B, what):
    return dict(expr=f"all_err({texts_expr(x, m, B)})", expect=None, ident={"what": what, "text": mtext(m, B)})
def fidx(prog, ty, n):
    for i, (q, _) in enumerate(prog.types[ty][4][0][2]):
        if q == n: return i
    raise Unsupported(f"field {n}")
def vidx(prog, ty, n):
    for i, v in enumerate(prog.types[ty][4]):
        if v[0] == n: return i
    raise Unsupported(f"variant {n}")

def c11_setup(k):
    x, st, B, v = from_xml(k)
    h, d, wf = layout(x, B)
    root = [root_is(x, d.content, e[3]) for e in CAT]
    which = lambda m: next((e[0] for e, c in zip(CAT, root) if mbool(m, c)), "")
    env = lambda what: lambda m: env_probe(x, m, B, h, d, which(m), what)
    ok = nameb(x, Eq(v.d, 0))
    m0 = v.alts[0][0]
    return x, st, B, v, h, d, wf, root, env, ok, m0, list(st.pc)
def envelope_header(k, _):
    """every use of the header reader is given the content of the header element, and its value is the header"""
    C, prog = k.C, k.prog
    x, st, B, v, h, d, wf, root, env, ok, m0, base = c11_setup(k)
    hr = reads(x, HDR)
    if not hr: raise Unsupported("no reader of the header")
    for r in hr:
        pre, w, post = rope_window(r.text.t)
        inner = And(modtrim(x, w, h.content), bool(pre))
        elem = And(modtrim(x, w, BS(B, h.open, h.end)), not pre)
        k.ob(x, base + [wf, used(r), Not(Or(inner, elem))], env("text given to the header reader"))
        k.wit(x, base + [wf, used(r), r.ok])
    hok = nameb(x, Or(*[And(used(r), r.ok) for r in hr]))
    k.ob(x, base + [wf, ok, Not(hok)], env("accepted without a header"))
    got = m0.f[fidx(prog, m0.ty, "app_hdr")]
    for r in hr: k.ob(x, base + [wf, ok, used(r), r.ok, Not(Or(*[And(used(q), q.ok) for q in hr if q is not r])), Not(ext.veq(x, got, r.val))], env("header of the result"))
    C.samples.append({"claim": "header reader given the header content", "bytes": B.N})
def namespaces(k, which):
    C, prog = k.C, k.prog
    x, st, B, v, h, d, wf, root, env, ok, m0, base = c11_setup(k)
    fn, a = which
    p, q = first(whole(B), lit_pat(a + '="'))
    p, q = nameb(x, p), name(x, p, q)
    s = name(x, True, padd(q, len(a) + 2))
    g, e = first(BS(B, s, B.n), lit_pat('"'))
    g, e = nameb(x, And(p, g)), name(x, g, e)
    got = m0.f[fidx(prog, m0.ty, fn)]
    if isinstance(got, Lazy): got = x.expand(got)
    dd, al = (got.v, {got.v: got.f}) if isinstance(got, Adt) else (got.d, got.alts)
    k.ob(x, base + [wf, ok, zb(Eq(dd, 1)) != zb(g)], env(f"{a} kept or left out"))
    if 1 in al:
        w = as_bs(x, al[1][0])
        k.ob(x, base + [wf, ok, g, Eq(dd, 1), Not(And(peq(w.lo, s), peq(w.hi, e)) if w.base is B else False)], env(f"value of {a}"))
        k.wit(x, base + [wf, ok, g])
    C.samples.append({"claim": f"value of {a}", "bytes": B.N})
def refusals(k, part):
    C, prog = k.C, k.prog
    x, st, B, v, h, d, wf, root, env, ok, m0, base = c11_setup(k)
    tr = trimmed(x, d.content)
    if part == 0:
        k.ob(x, base + [ok, Not(h.has)], lambda m: err_probe(x, m, B, "accepted without a header element"))
        k.ob(x, base + [ok, Not(d.has)], lambda m: err_probe(x, m, B, "accepted without a document element"))
        k.ob(x, base + [wf, ok, Not(B.at(tr.lo, lambda i: B.is_(i, 0x3C)))], env("accepted without a root element"))
    if part == 1:
        # root elements with a plain name that is no element (nor body type name)
        alnum = lambda i: Or(*[And(z3.UGE(B.b[i], p), z3.ULE(B.b[i], q)) for p, q in ((48, 57), (65, 90), (97, 122))]) if i < B.N else False
        run = {B.N: bstr.P(B.N)}
        for i in range(B.N - 1, -1, -1): run[i] = bstr.pite(alnum(i), run[i + 1], i)
        start = name(x, True, padd(tr.lo, 1))
        end = bstr.P(0)
        for i in range(B.N, -1, -1): end = z3.If(start == i, bstr.P(run[i]), end)
        end = name(x, True, end)
        nm = Str(BS(B, start, end))
        unk = nameb(x, And(B.at(tr.lo, lambda i: B.is_(i, 0x3C)), plt(start, end), plt(end, d.close), B.at(end, lambda i: Or(*[B.is_(i, c) for c in (0x3E, 32, 9, 10, 13)])), *[Not(bstr.beq(x, nm, Str(e[i]))) for e in CAT for i in (2, 3)]))
        k.wit(x, base + [wf, unk])
        k.ob(x, base + [wf, unk, ok], env("accepted with an unsupported root element"))
    if part == 2:
        # nothing else is refused
        nonblank = plt(trimmed(x, h.content).lo, h.close)
        k.ob(x, base + [wf, Or(*root), nonblank, Not(ok)] + [Not(And(used(r), Not(r.ok))) for r in reads(x)], env("refused although both readers accept"))
    C.samples.append({"claim": "refusals", "bytes": B.N})
def envelope_body(k, pq):
    part, quarter = pq
    C, prog = k.C, k.prog
    x, st, B, v, h, d, wf, root, env, ok, m0, base = c11_setup(k)
    doc = m0.f[fidx(prog, m0.ty, "document")]
    dty = prog.types[m0.ty][4][0][2][fidx(prog, m0.ty, "document")][1]
    wrong, texts = [], {}
    for e, rt in zip(CAT, root):
        mine = module(e) + "::" + e[2]
        rs = reads(x, mine)
        if part == 0:       # the text given to the reader of the root's type
            for r in rs:
                pre, w, post = rope_window(r.text.t)
                wrong.append(And(used(r), Or(Not(modtrim(x, w, d.content)), bool(pre))))
        elif part == 1:     # no other body reader runs
            wrong.append(And(rt, Or(*[used(r) for r in reads(x) if r.ty != mine and r.ty != HDR])))
        elif part == 2:     # success needs this reader
            wrong.append(And(rt, ok, Not(Or(*[And(used(r), r.ok) for r in rs]))))
        else:
            var = vidx(prog, dty, variant(e))
            c = And(ext.kind(x, doc, var), Or(*[And(used(r), r.ok, veq_body(x, st, doc, var, r.val)) for r in rs]))
            wrong.append(And(rt, ok, Not(c)))
        if part == 3 and quarter == 0 and (C.thorough or e[0] in ("pacs.008", "camt.105", "admi.024")): k.wit(x, base + [wf, rt, ok])
    for i in range(quarter, len(wrong), 4):
        k.ob(x, base + [wf, wrong[i]], env(["text given to the body reader", "a reader of another type", "accepted although the body is refused", "document of the result"][part]))
    C.samples.append({"claim": ["body reader given the document content", "only the reader of the root's type", "accepted only when the body reader accepts", "document of the result is what was read, of the root's kind"][part], "bytes": B.N})
def veq_body(x, st, doc, var, want):
    p = ext.payload(x, doc, var)
    return p is not UNDEF and ext.veq(x, x.deref_all(st, p), want)
def c11(k):
    k.C.bounds = {"text": f"every UTF-8 text of at most {size(k.C)} bytes", "exact contents": "texts in which each of the two elements occurs once, header first, with no comments, CDATA sections or instructions other than a leading declaration", "readers": "any outcome"}
    return [(refusals, i) for i in (2, 1, 0)] + [(envelope_body, (i, q)) for i in (3, 2, 1, 0) for q in range(4)] + [(envelope_header, None), (namespaces, ("xmlns", "xmlns")), (namespaces, ("xmlns_xsi", "xmlns:xsi"))]

# ------------------------------------------------------------------ results, JSON of a model
def okv(x, v):
    """(succeeded, value) of a Result or (is some, value) of an Option given as kind 0/1"""
    return alt(x, v, 0)
def alt(x, v, k):
    if isinstance(v, Lazy): v = x.expand(v)
    if isinstance(v, Adt): return v.v == k, (v.f[0] if v.v == k and v.f else UNDEF)
    if isinstance(v, Sum): return Eq(v.d, k), (v.alts[k][0] if k in v.alts and v.alts[k] else UNDEF)
    if isinstance(v, Ite):
        (c, p), (d, q) = alt(x, v.a, k), alt(x, v.b, k)
        return ite(v.g, c, d), (q if p is UNDEF else p if q is UNDEF else ext.vite(x, v.g, p, q))
    raise Unsupported(f"result of type {type(v).__name__}")
def weq(x, s, w):
    """the text s is the window w (sufficient condition)"""
    if isinstance(s, Ite): return And(Or(Not(s.g), weq(x, s.a, w)), Or(s.g, weq(x, s.b, w)))
    if isinstance(s.t, BS) and s.t.base is w.base: return Or(And(peq(s.t.lo, w.lo), peq(s.t.hi, w.hi)), And(peq(s.t.lo, s.t.hi), peq(w.lo, w.hi)))
    if isinstance(s.t, str): return bstr.beq(x, Str(w), s)
    if isinstance(s.t, Rope) and len(s.t.parts) == 1: return weq(x, Str(s.t.parts[0]), w)
    return False
def normal_is(x, res, w):
    """res is the normalised form of the window w"""
    cs, anyc = [], []
    for e in CAT:
        c = Or(*[bstr.beq(x, Str(w), Str(e[i])) for i in (0, 1)])
        anyc.append(c); cs.append(Or(Not(c), bstr.beq(x, res, Str(e[0]))))
    return And(*cs, Or(*anyc, weq(x, res, w)))
def norm_py(s):
    for e in CAT:
        if s in (e[0], e[1]): return e[0]
    return s
def mstr_(x, m, s):
    if isinstance(s, Ite): return mstr_(x, m, s.a if mbool(m, s.g) else s.b)
    if isinstance(s.t, str): return s.t.encode("latin-1").decode("utf8", "replace") if any(ord(c) > 127 for c in s.t) else s.t
    if isinstance(s.t, BS): return pyt(s.t.base.text(m, s.t.lo, s.t.hi))
    if isinstance(s.t, Rope): return "".join(mstr_(x, m, Str(p)) for p in s.t.parts)
    return "?"
def pyjson(x, m, v, depth=0):
    """the JSON value of a model (only the keys that matter)"""
    if isinstance(v, Lazy):
        if depth > 6: return None
        v = x.expand(v)
    if isinstance(v, Ite): return pyjson(x, m, v.a if mbool(m, v.g) else v.b, depth)
    if v is UNDEF: return None
    if isinstance(v, Sum): k, f = mint(m, v.d), v.alts.get(mint(m, v.d), ())
    elif isinstance(v, Adt): k, f = v.v, v.f
    else: return None
    if k == ext.VNULL: return None
    if k == ext.VBOOL: return mbool(m, f[0])
    if k == ext.VNUM: return 7
    if k == ext.VSTR: return mstr_(x, m, f[0] if not isinstance(f[0], Lazy) else x.expand(f[0]))
    if k == ext.VARR: return []
    mp = f[0]
    if isinstance(mp, Lazy): mp = x.expand(mp)
    while isinstance(mp, Ite): mp = mp.a if mbool(m, mp.g) else mp.b
    out = {}
    if mp.base:
        for key, p, w in mp.base.seen:
            if mbool(m, p) and mstr_(x, m, key) not in out: out[mstr_(x, m, key)] = pyjson(x, m, w, depth + 1)
    for g, key, w in mp.ent:
        if not mbool(m, g): continue
        if w is ext.GONE: out.pop(mstr_(x, m, key), None)
        else: out[mstr_(x, m, key)] = pyjson(x, m, w, depth + 1)
    return out
def rjson(v): return f"serde_json::from_str::<Value>({rust_str(json.dumps(v))}).unwrap()"
def run1(k, x, path, args):
    f = k.prog.fn(path)
    if f is None: raise Unsupported(f"{path} is not in the tree")
    st = State()
    r = x.call(st, f, [a(x, st) if callable(a) else a for a in args])
    if len(r) != 1: raise Unsupported(f"{path}: {[(b, c) for _, b, c in x.unsupported][:3]}")
    k.done(x, path); x.panics = []
    return r[0]

# ------------------------------------------------------------------ C13
PEEKX, PEEKJ = "mx_envelope::peek_message_type_from_xml", "mx_envelope::peek_message_type_from_json"
def peek_xml(k, quarter):
    C = k.C
    x = k.X()
    B, t = bstr.new_text(x, "T", size(C))
    st, v = run1(k, x, PEEKX, [t])
    ok, p = okv(x, v)
    N, O, E = B.N, "<MsgDefIdr>", "</MsgDefIdr>"
    # nxt[i]: position of the first '<' from i (N when there is none)
    nxt = {N: N}
    for i in range(N - 1, -1, -1): nxt[i] = bstr.pite(B.is_(i, 0x3C), i, nxt[i + 1])
    f, pos, end = False, 0, 0
    for i in range(N - len(O) - len(E), -1, -1):
        j = nxt[i + len(O)]
        c = And(B.match(O, i), plt(i + len(O), j), B.at(j, lambda q: B.match(E, q)))
        f = Or(c, f); pos = bstr.pite(c, i + len(O), pos); end = bstr.pite(c, j, end)
    f = nameb(x, f); w = BS(B, name(x, True, pos), name(x, True, end))
    import re
    def cand(what):
        def g(m):
            s = mtext(m, B)
            q = re.search(r"<MsgDefIdr>([^<]+)</MsgDefIdr>", s)
            return dict(expr=f"json!(peek_message_type_from_xml({rust_str(s)}).ok())", expect=norm_py(q.group(1)) if q else None, ident={"what": what, "text": s})
        return g
    base = list(st.pc)
    if quarter == 0:
        k.ob(x, base + [zb(ok) != zb(f)], cand("identifier found or not"))
        k.wit(x, base + [f]); k.wit(x, base + [Not(f)])
    if p is UNDEF: raise Unsupported("peek never succeeds")
    n = 8
    for i, e in enumerate(CAT):
        if i % n != quarter: continue
        c = Or(*[bstr.beq(x, Str(w), Str(e[j])) for j in (0, 1)])
        k.ob(x, base + [f, ok, c, Not(bstr.beq(x, p, Str(e[0])))], cand(f"type {e[0]}"))
    if quarter == n - 1:
        oth = And(*[Not(bstr.beq(x, Str(w), Str(e[j]))) for e in CAT for j in (0, 1)])
        k.ob(x, base + [f, ok, oth, Not(weq(x, p, w))], cand("identifier outside the catalogue"))
    C.samples.append({"function": PEEKX, "bytes": N})
def peek_json(k, _):
    C = k.C
    x = k.X(); x.memo["strlen_of"] = lambda n: 18
    B, t = bstr.new_text(x, "T", 8)
    st, v = run1(k, x, PEEKJ, [t])
    ok, p = okv(x, v)
    rs = [r for r in reads(x) if r.fmt == "json"]
    if len(rs) != 1: raise Unsupported("not one JSON reader")
    r = rs[0]
    val = r.val
    ph, hd = ext.vpath(x, val, "AppHdr")
    pe, en = ext.vpath(x, val, "Envelope")
    pe2, hd2 = ext.vpath(x, en, "AppHdr")
    p1, i1 = ext.vpath(x, hd, "MsgDefIdr"); p2, i2 = ext.vpath(x, hd2, "MsgDefIdr")
    s1, s2 = ext.kind(x, i1, ext.VSTR), ext.kind(x, i2, ext.VSTR)
    want1 = And(r.ok, ph, p1, s1); want2 = And(r.ok, Not(ph), pe, pe2, p2, s2)
    def cand(what):
        def g(m):
            if not mbool(m, r.ok): return dict(expr='json!(peek_message_type_from_json("{").ok())', expect=None, ident={"what": what, "text": "no JSON"})
            j = pyjson(x, m, val)
            h = j.get("AppHdr") if isinstance(j, dict) and "AppHdr" in j else (j.get("Envelope") or {}).get("AppHdr") if isinstance(j, dict) and isinstance(j.get("Envelope"), dict) else None
            s = h.get("MsgDefIdr") if isinstance(h, dict) else None
            return dict(expr=f"json!(peek_message_type_from_json({rust_str(json.dumps(j))}).ok())", expect=norm_py(s) if isinstance(s, str) else None, ident={"what": what, "json": json.dumps(j)[:200]})
        return g
    base = list(st.pc)
    if not weq(x, r.text, whole(B)) is True: k.ob(x, base + [used(r), Not(weq(x, r.text, whole(B)))], cand("text read"))
    k.ob(x, base + [zb(ok) != zb(Or(want1, want2))], cand("identifier found or not"))
    for wnt, i in ((want1, i1), (want2, i2)):
        s = ext.payload(x, i, ext.VSTR)
        k.wit(x, base + [wnt, ok])
        for e in CAT:
            c = Or(*[bstr.beq(x, s, Str(e[j])) for j in (0, 1)])
            k.ob(x, base + [wnt, ok, c, Not(bstr.beq(x, p, Str(e[0])))], cand(f"type {e[0]}"))
        oth = And(*[Not(bstr.beq(x, s, Str(e[j]))) for e in CAT for j in (0, 1)])
        k.ob(x, base + [wnt, ok, oth, Not(weq(x, p, as_bs(x, s)))], cand("identifier outside the catalogue"))
    C.samples.append({"function": PEEKJ, "value": "any JSON value", "identifier bytes": 18})
def c13(k):
    k.C.bounds = {"text": f"every UTF-8 text of at most {size(k.C)} bytes", "JSON": "every value; identifiers of at most 18 bytes", "JSON reader": "any outcome"}
    return [(peek_xml, i) for i in range(8)] + [(peek_json, None)]

# ------------------------------------------------------------------ C19
PC = "plugin::common::"
LEGACY = [("FinInstnCdtTrf", "pacs.009"), ("Rct", "camt.025"), ("ClmNonRct", "camt.027"), ("ClaimNonReceiptV07", "camt.027")]
ELEMENTS = [(e[3], e[0]) for e in CAT] + [(e[2], e[0]) for e in CAT] + LEGACY
def element_py(s): return dict(ELEMENTS).get(s)
def mapped(k, x, base, s, ok, p, cand, part=0, parts=1):
    """(ok, p) is the answer of the element table for the text s"""
    for i, (n, t) in enumerate(ELEMENTS):
        if i % parts != part: continue
        k.ob(x, base + [bstr.beq(x, s, Str(n)), Not(And(ok, p is not UNDEF and bstr.beq(x, p, Str(t))))], cand(f"element {n}"))
    if part == parts - 1: k.ob(x, base + [ok] + [Not(bstr.beq(x, s, Str(n))) for n, _ in ELEMENTS], cand("unknown element"))
def element_map(k, _):
    x = k.X()
    B, t = bstr.new_text(x, "T", 48)
    st, v = run1(k, x, PC + "map_document_element_to_message_type", [t])
    ok, p = okv(x, v)
    def cand(what): return lambda m: dict(expr=f"json!(map_document_element_to_message_type({rust_str(mtext(m, B))}).ok())", expect=element_py(mtext(m, B)), ident={"what": "element table: " + what, "text": mtext(m, B)})
    mapped(k, x, list(st.pc), t, ok, p, cand)
    k.wit(x, list(st.pc) + [ok])
    k.C.samples.append({"function": "map_document_element_to_message_type", "elements": len(ELEMENTS)})
def type_of_json(k, _):
    x = k.X(); x.memo["strlen_of"] = lambda n: 40 if n.endswith("key0") else 8
    val = Lazy(ext.vty(x), "data", k.prog)
    st, v = run1(k, x, PC + "extract_message_type", [lambda x, st: x.alloc(st, val)])
    ok, p = okv(x, v)
    pm, mv = ext.vpath(x, val, "message_type"); sm = ext.kind(x, mv, ext.VSTR)
    pd, dv = ext.vpath(x, val, "Document"); od = ext.kind(x, dv, ext.VOBJ)
    ne, key = ext.first_key(x, ext.payload(x, dv, ext.VOBJ))
    def want(j):
        if not isinstance(j, dict): return None
        if isinstance(j.get("message_type"), str): return j["message_type"]
        d = j.get("Document")
        return element_py(min(d)) if isinstance(d, dict) and d else None
    def cand(what):
        def g(m):
            j = pyjson(x, m, val)
            return dict(expr=f"json!(extract_message_type(&{rjson(j)}).ok())", expect=want(j), ident={"what": "type of parsed data: " + what, "json": json.dumps(j)[:200]})
        return g
    base = list(st.pc)
    s = ext.payload(x, mv, ext.VSTR)
    k.ob(x, base + [pm, sm, Not(And(ok, p is not UNDEF and weq(x, p, as_bs(x, s))))], cand("explicit type"))
    nom = Not(And(pm, sm))
    k.ob(x, base + [nom, ok, Not(And(pd, od, ne))], cand("type without document"))
    mapped(k, x, base + [nom, pd, od, ne], key, ok, p, cand)
    k.wit(x, base + [nom, ok]); k.wit(x, base + [pm, sm, ok])
    k.C.samples.append({"function": "extract_message_type", "value": "any JSON value"})
def type_of_xml(k, part):
    C = k.C
    x = k.X()
    B, t = bstr.new_text(x, "T", size(C))
    st, v = run1(k, x, PC + "extract_message_type_from_xml", [t])
    ok, p = okv(x, v)
    W = trimmed(x, whole(B))
    has, d = first(W, lit_pat("<Document")); has, d = nameb(x, has), name(x, has, d)
    hg, g = first(BS(B, d, W.hi), lit_pat(">")); hg, g = nameb(x, hg), name(x, hg, g)
    a = padd(g, 1)
    hs, s = first(BS(B, a, W.hi), lit_pat("<")); hs, s = nameb(x, hs), name(x, hs, s)
    n0 = padd(s, 1)
    delim = bstr.char_set([0x3E, 0x2F, 32, 9, 10, 13])
    he, e = first(BS(B, n0, W.hi), delim)
    he, e = nameb(x, he), name(x, he, e)
    end = bstr.pite(he, e, W.hi)
    hc, c = last(BS(B, n0, end), lit_pat(":")); hc, c = nameb(x, hc), name(x, hc, c)
    l0 = bstr.pite(hc, padd(c, 1), n0)
    local = BS(B, l0, end)
    two = And(hc, first(BS(B, n0, c), lit_pat(":"))[0])
    inside = lambda i: And(plt(d, i), plt(i, g))
    par, bad = z3.BoolVal(False), []
    for i in range(B.N):
        par = z3.Xor(par, zb(And(inside(i), B.is_(i, 0x22))))
        bad.append(And(inside(i), Or(B.is_(i, 0x3C), B.is_(i, 0x27))))
    form = nameb(x, And(has, hg, after_tag(B, d, 9), Not(nameb(x, par)), Not(Or(*bad)), Not(B.at(bstr.psub(g, 1), lambda i: B.is_(i, 0x2F))), hs, Not(two), Not(B.at(n0, lambda i: Or(B.is_(i, 0x21), B.is_(i, 0x3F), B.is_(i, 0x2F)))), plt(end, W.hi), first(BS(B, end, W.hi), lit_pat(">"))[0]))
    import re
    def want(s):
        q = re.search(r"<Document", s)
        if not q: return None
        q = re.search(r"<Document[^>]*>[^<]*<([^ \t\r\n>/]*)", s)
        return element_py(q.group(1).split(":")[-1]) if q else None
    def cand(what): return lambda m: dict(expr=f"json!(extract_message_type_from_xml({rust_str(mtext(m, B))}).ok())", expect=want(mtext(m, B)), ident={"what": "type of a document text: " + what, "text": mtext(m, B)})
    base = list(st.pc)
    if part == 0:
        k.ob(x, base + [ok, Not(has)], cand("type without document"))
        k.ob(x, base + [ok, has, hg, Not(hs)], cand("type without element"))
        k.ob(x, base + [ok, has, hg, hs, B.at(n0, lambda i: B.is_(i, 0x2F))], cand("type of an empty document"))
        k.wit(x, base + [form, ok]); k.wit(x, base + [form, hc, ok])
    mapped(k, x, base + [form], Str(local), ok, p, cand, part, 8)
    C.samples.append({"function": "extract_message_type_from_xml", "bytes": B.N})
def content(k, _):
    C = k.C
    x = k.X()
    data, pay = Lazy(ext.vty(x), "data", k.prog), Lazy(ext.vty(x), "payload", k.prog)
    F, f = bstr.new_text(x, "F", 12)
    st, v = run1(k, x, PC + "extract_mx_content", [lambda x, st: x.alloc(st, data), f, lambda x, st: x.alloc(st, pay)])
    ok, p = okv(x, v)
    isp = bstr.beq(x, f, Str("payload"))
    sp = ext.kind(x, pay, ext.VSTR)
    pf, fv = ext.vpath(x, data, f)
    pn, nv = ext.vpath(x, fv, "mx_message"); sn = ext.kind(x, nv, ext.VSTR); sf = ext.kind(x, fv, ext.VSTR)
    def want(j, n, pl):
        if n == "payload": return pl if isinstance(pl, str) else ("json", pl)
        if not isinstance(j, dict) or n not in j: return None
        w = j[n]
        if isinstance(w, dict) and isinstance(w.get("mx_message"), str): return w["mx_message"]
        return w if isinstance(w, str) else None
    def cand(what):
        def g(m):
            j, n, pl = pyjson(x, m, data), mtext(m, F), pyjson(x, m, pay)
            w = want(j, n, pl)
            if isinstance(w, tuple): return dict(expr=f"json!(extract_mx_content(&{rjson(j)}, {rust_str(n)}, &{rjson(pl)}).ok().map(|t| serde_json::from_str::<Value>(&t).ok() == Some({rjson(pl)})))", expect=True, ident={"what": "source text: " + what, "payload": json.dumps(pl)[:100]})
            return dict(expr=f"json!(extract_mx_content(&{rjson(j)}, {rust_str(n)}, &{rjson(pl)}).ok())", expect=w, ident={"what": "source text: " + what, "data": json.dumps(j)[:150], "field": n, "payload": json.dumps(pl)[:100]})
        return g
    base = list(st.pc)
    def is_(s): return p is not UNDEF and weq(x, p, as_bs(x, s))
    ps = ext.payload(x, pay, ext.VSTR)
    k.ob(x, base + [isp, Not(ok)], cand("payload refused"))
    k.ob(x, base + [isp, sp, ok, Not(is_(ps))], cand("payload text"))
    jt = ext.jsontext(x, pay)
    b = as_bs(x, jt)
    q = bstr.char_pat(lambda c: Eq(c, 0x22))
    x.axiom(zb(Not(Or(b.base.is_(0, 0x22), bstr.ends(b, q)))))     # JSON text of anything but a string
    k.ob(x, base + [isp, Not(sp), ok, Not(is_(jt))], cand("payload that is no text"))
    nop = Not(isp)
    k.ob(x, base + [nop, zb(ok) != zb(And(pf, Or(And(pn, sn), sf)))], cand("accepted or not"))
    k.ob(x, base + [nop, ok, pf, pn, sn, Not(is_(ext.payload(x, nv, ext.VSTR)))], cand("nested text"))
    k.ob(x, base + [nop, ok, pf, Not(And(pn, sn)), sf, Not(is_(ext.payload(x, fv, ext.VSTR)))], cand("text of the field"))
    k.wit(x, base + [nop, ok, pn, sn]); k.wit(x, base + [nop, ok, sf]); k.wit(x, base + [isp, Not(sp)])
    C.samples.append({"function": "extract_mx_content", "data, payload": "any JSON values", "field name bytes": 12})
def c19(k):
    k.C.bounds = {"text": f"every UTF-8 text of at most {size(k.C)} bytes", "JSON": "every value; texts and names of at most 8 to 48 bytes"}
    return [(type_of_xml, i) for i in range(8)] + [(element_map, None), (type_of_json, None), (content, None)]

# ------------------------------------------------------------------ C20
def conversion(k, part):
    """part: index of a quarter of the catalogue, or 'rest'"""
    C = k.C
    x = k.X()
    B, t = bstr.new_text(x, "T", size(C)); M, mt = bstr.new_text(x, "M", 16)
    st, v = run1(k, x, "xml::xml_to_json_via_document", [t, mt])
    ok, p = okv(x, v)
    d = tag(x, B, "Document")
    doc = nameb(x, And(d.wf, plain(x, B, d.open)))
    W = whole(B)
    nodoc = nameb(x, And(Not(d.has)))
    tw = trimmed(x, W)
    DECL = '<?xml version="1.0" encoding="UTF-8"?>'
    decl = nameb(x, bstr.starts(tw, lit_pat(DECL)))
    anyd = nameb(x, bstr.starts(tw, lit_pat("<?")))
    rest = BS(B, name(x, True, padd(tw.lo, len(DECL))), tw.hi)
    again = nameb(x, And(decl, bstr.starts(trimmed(x, rest), lit_pat("<?"))))
    base = list(st.pc)
    sel = {e[0]: bstr.beq(x, mt, Str(e[0])) for e in CAT}
    def cand(what, short, layout):
        def g(m):
            bs = B.text(m)
            ty = short or mtext(m, M)
            lo, hi = window(m, d.content if layout == "doc" else rest if layout == "decl" else tw)
            a = [pyt(bs[:lo]), pyt(bs[lo:hi]), pyt(bs[hi:])]
            if not short: return dict(expr=f"json!(xml_to_json_via_document({rust_str(pyt(bs))}, {rust_str(ty)}).is_err())", expect=True, ident={"what": what, "text": pyt(bs), "type": ty})
            return dict(expr=f"conv({', '.join(rust_str(q) for q in a)}, {rust_str(ty)})", expect=[], ident={"what": what, "text": pyt(bs), "type": ty})
        return g
    if part == "rest":
        full = [bstr.beq(x, mt, Str(e[1])) for e in CAT]
        k.ob(x, base + [ok, Not(Or(*sel.values(), *full))], cand("unsupported type accepted", None, None))
        k.wit(x, base + [Not(ok), Not(Or(*sel.values()))])
        return
    which = lambda m: next((e[0] for e in CAT if mtext(m, M) == e[0]), "")
    if part in ("doc", "whole", "decl"):
        # the readers are given the same text for all types: one question per distinct text and layout
        groups = []
        for e in CAT:
            for r in reads(x, module(e) + "::" + e[2]):
                pre, w, post = rope_window(r.text.t)
                for g in groups:
                    if g[0] == pre and g[1] == w: g[2].append(And(sel[e[0]], used(r))); break
                else: groups.append((pre, w, [And(sel[e[0]], used(r))]))
        one = lambda what, lay: lambda m: cand(what, which(m), lay)(m)
        for pre, w, us in groups:
            u = Or(*us)
            if part == "doc": k.ob(x, base + [doc, u, Or(bool(pre), Not(modtrim(x, w, d.content)))], one("text read", "doc"))
            if part == "whole": k.ob(x, base + [nodoc, Not(anyd), u, Or(bool(pre), Not(modtrim(x, w, W)))], one("text read (no document element)", "whole"))
            if part == "decl": k.ob(x, base + [nodoc, decl, Not(again), u, Or(bool(pre), And(Not(modtrim(x, w, rest)), Not(modtrim(x, w, W))))], one("text read (with declaration)", "decl"))
            k.wit(x, base + {"doc": [doc], "whole": [nodoc, Not(anyd)], "decl": [nodoc, decl]}[part] + [u])
        C.samples.append({"function": "xml_to_json_via_document", "claim": "text handed to the readers", "distinct texts": len(groups), "bytes": B.N})
        return
    for e in CAT[part::3]:
        c = sel[e[0]]
        mine = module(e) + "::" + e[2]
        rs = reads(x, mine)
        good, wok = [], []
        oth = Or(*[used(r) for r in reads(x) if r.ty != mine])
        for r in rs:
            jf = [q for u, q in x.memo.get("jsonforms", []) if is_of(u, r.val)]
            for jok, jv in jf[:1]:
                wok.append(And(used(r), r.ok, jok))
                pd, dv = ext.vpath(x, p, "Document"); pe, ev = ext.vpath(x, dv, e[3])
                good.append(And(used(r), r.ok, jok, only_key(x, p, "Document"), only_key(x, dv, e[3]), pd, pe, ext.veq(x, ev, jv) if ev is not UNDEF else False))
        k.ob(x, base + [c, oth], cand(f"another reader for {e[0]}", e[0], "doc"))
        k.ob(x, base + [c, zb(ok) != zb(Or(*wok))], cand(f"{e[0]} accepted or refused", e[0], "doc"))
        k.ob(x, base + [c, ok, Not(Or(*good))], cand(f"value for {e[0]}", e[0], "doc"))
        k.wit(x, base + [c, ok])
    C.samples.append({"function": "xml_to_json_via_document", "types": [e[0] for e in CAT[part::3]], "bytes": B.N})
def is_of(u, v):
    """u is the unknown value v (possibly with its fields laid open)"""
    if isinstance(u, Lazy): return u.name == v.name
    if isinstance(u, (Adt, Tup)): return bool(u.f) and all(isinstance(e, Lazy) and e.name.startswith(v.name + ".") for e in u.f)
    return False
def only_key(x, v, key):
    """an object value with exactly this key"""
    if v is UNDEF: return False
    m = ext.payload(x, v, ext.VOBJ)
    return And(ext.kind(x, v, ext.VOBJ), one_key(x, m, key))
def one_key(x, m, key):
    if isinstance(m, Ite): return ite(m.g, one_key(x, m.a, key), one_key(x, m.b, key))
    if m is UNDEF or m.base is not None: return False
    cs = [And(Or(Not(g), bstr.beq(x, kk, Str(key))), w is not ext.GONE) for g, kk, w in m.ent]
    return And(*cs, m.mget(x, Str(key))[0])
def validate_text(k, _):
    """validating an envelope text accepts exactly what the readers accept"""
    C = k.C
    x = k.X()
    B, t = bstr.new_text(x, "T", size(C)); M, mt = bstr.new_text(x, "M", 16)
    st = State()
    def call(st, path, args):
        f = k.prog.fn(path)
        if f is None: raise Unsupported(path)
        r = x.call(st, f, args)
        if len(r) != 1: raise Unsupported(path)
        return r[0]
    st, a = call(st, "xml::from_mx_xml_envelope_str", [t, mt])
    st, b = call(st, "mx_envelope::MxMessage::from_xml", [t])
    st, c = call(st, "xml::xml_to_json_via_document", [t, mt])
    k.done(x, "from_mx_xml_envelope_str"); x.panics = []
    oa, ob_, oc = okv(x, a)[0], okv(x, b)[0], okv(x, c)[0]
    W = whole(B)
    env = nameb(x, Or(first(W, lit_pat("<AppHdr"))[0], first(W, lit_pat("<Envelope"))[0]))
    def cand(m):
        ts = texts_expr(x, m, B)
        return dict(expr=f"{{ let ts: Vec<String> = {ts}; let ty = {rust_str(mtext(m, M))}; let mut bad = json!(null); for t in &ts {{ let env = t.contains(\"<AppHdr\") || t.contains(\"<Envelope\"); let want = if env {{ MxMessage::from_xml(t).is_ok() }} else {{ xml_to_json_via_document(t, ty).is_ok() }}; if from_mx_xml_envelope_str(t, ty).is_ok() != want {{ bad = json!(t) }} }} bad }}", expect=None, ident={"what": "validation of an envelope text", "text": mtext(m, B), "type": mtext(m, M)})
    k.ob(x, list(st.pc) + [zb(oa) != zb(ite(env, ob_, oc))], cand)
    k.wit(x, list(st.pc) + [env, oa]); k.wit(x, list(st.pc) + [Not(env), oa])
    C.samples.append({"function": "from_mx_xml_envelope_str", "bytes": B.N})
def c20(k):
    k.C.bounds = {"text": f"every UTF-8 text of at most {size(k.C)} bytes", "type name": "at most 16 bytes", "readers, JSON conversion": "any outcome"}
    return [(conversion, "doc"), (conversion, "decl"), (conversion, "whole"), (conversion, 0), (conversion, 1), (conversion, 2), (conversion, "rest"), (validate_text, None)]

JOBS = {"C10": c10, "C11": c11, "C13": c13, "C19": c19, "C20": c20}
ASSUME = ["quick-xml, serde_json and regex behave as their contracts in engine/ext.py and engine/bstr.py say", "the standard library string functions behave as their contracts in engine/bstr.py say"]
def work(job):
    mode, i, dump, thorough = job
    C = chk.Check(mode)
    k = TCtx(C, Prog(os.path.join(dump, "core.json")))
    f, a = JOBS[mode](k)[i]
    import time; t0 = time.time(); guard(C, f, k, a)
    if os.environ.get("VERIF_TIMES"): print(f"  {f.__name__} {str(a)[:60]}: {time.time() - t0:.0f}s", flush=True)
    for x in k.xs: C.absorb_x(x)
    return {n: getattr(C, n) for n in ("obligations", "discharged", "unknown", "queries", "solver_s", "witnesses", "stmts", "states", "edges", "functions", "contracts", "candidates", "uncovered", "samples", "notes")}
def main(mode):
    C = chk.Check(mode)
    out, t = build.dump(["core"], shards=1)
    C.cov["dump_s"] = round(t, 1)
    C.assumptions = ASSUME
    k = TCtx(C, None)
    n = len(JOBS[mode](k))
    for r in chk.pool_map(work, [(mode, i, out, C.thorough) for i in range(n)]):
        C.absorb(r); C.notes += r["notes"]
    if C.candidates: chk.confirm_probes(C, C.candidates, prelude() + "\n" + TYPES)
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
