"""C08 (one type, one meaning on every path) and C12 (written XML)."""
import re
from textlib import *
import build, serdemap, intr
from mir import Prog
from text import okv, alt, weq, fidx, vidx, run1, only_key, is_of, ELEMENTS

MSG = "mx_envelope::MxMessage"
DOC = "mx_envelope::Document"
ROOTS = [module(e) + "::" + e[2] for e in CAT] + [HDR]
NAMES = {f["x"] for m in vspec.SCHEMA.values() for it in m.values() if it["k"] == "struct" for f in it["fields"]} | {e[3] for e in CAT}

# ------------------------------------------------------------------ names of the written roots
def root_names(C, dump):
    """the names the derived writers of header and bodies announce (quick-xml takes them as element names)"""
    prog = Prog(os.path.join(dump, "n.json"))
    out = {}
    for f in prog.roots:
        m = re.search(r"for ([\w:]+)>::serialize$", f.path)
        if not m: continue
        got = []
        x = serdemap.mkx(prog, {"unres:serde::Serializer::serialize_struct": lambda x, st, f, a, w: (got.append(serdemap.reftext(x, st, a[1])), intr.OK(x.alloc(st, Opq("ser"))))[1],
                    "unres:serde::ser::SerializeStruct::serialize_field": lambda x, st, f, a, w: intr.OK(UNIT), "unres:serde::ser::SerializeStruct::skip_field": lambda x, st, f, a, w: intr.OK(UNIT),
                    "unres:serde::ser::SerializeStruct::end": lambda x, st, f, a, w: intr.OK(Opq("serialized"))}, vec_bound=1)
        try: x.call(State(), f, [x.sym(f.locals[1], "self"), Opq("serializer")])
        except Unsupported as e: C.uncovered.append(f"name of {m.group(1)}: {e}"); continue
        C.absorb_x(x)
        if len(set(got)) == 1: out[m.group(1)] = got[0]
        else: C.uncovered.append(f"name of {m.group(1)}: {got[:3]}")
    return out

# ------------------------------------------------------------------ writing
def message(k):
    x = k.X(); st = State()
    names = k.names
    x.memo["xml_name"] = lambda t: names.get(t[1], xml_name(t))
    ty = ext.ty_of(x, MSG)
    msg = Lazy(ty, "msg", k.prog)
    return x, st, msg, x.expand(msg)
def to_xml(k):
    x, st, msg, mv = message(k)
    f = k.prog.fn(MSG + "::to_xml")
    if f is None: raise Unsupported("to_xml is not in the tree")
    r = x.call(st, f, [x.alloc(st, msg)])
    if len(r) != 1: raise Unsupported(f"to_xml: {[(b, c) for _, b, c in x.unsupported][:2]}")
    k.done(x, "to_xml")
    st, v = r[0]
    ok, p = okv(x, v)
    ty = ext.ty_of(x, MSG)
    hdr = mv.f[fidx(k.prog, ty, "app_hdr")]
    doc = x.expand(mv.f[fidx(k.prog, ty, "document")])
    dt = ext.ty_of(x, DOC)
    return x, st, ok, p, hdr, doc, {e[0]: vidx(k.prog, dt, variant(e)) for e in CAT}
def parts_of(s):
    if isinstance(s, Str):
        if isinstance(s.t, str): return [s.t]
        if isinstance(s.t, Rope): return list(s.t.parts)
    raise Unsupported("written text of an unknown shape")
def unboxed(x, st, v):
    for _ in range(6):
        if isinstance(v, Lazy):
            t = x.prog.types[v.ty]
            if t[0] == "adt" and not t[1].startswith(("std::", "alloc::")): return v
            v = x.expand(v)
        elif isinstance(v, Ref): v = x.get(x.cell(st, v.cell), v.path)
        elif isinstance(v, Adt) and v.f and len(v.f) >= 1: v = v.f[0]
        else: return v
    return v
def same_value(x, st, a, b):
    a, b = unboxed(x, st, a), unboxed(x, st, b)
    if isinstance(a, Lazy) and isinstance(b, Lazy): return a.name == b.name
    if isinstance(a, Lazy): return is_of(b, a)
    if isinstance(b, Lazy): return is_of(a, b)
    return same(a, b)
def safe(rep):
    """a replacement that cannot touch content: of a whole tag whose name is no element of the schemas"""
    m = re.fullmatch(r"</?([A-Za-z0-9_]+)/?>", rep[0])
    return rep[0] == rep[1] or bool(m) and m.group(1) not in NAMES
def shape(x, st, ps, hdr, body, root):
    """what is wrong with the written parts (None: nothing)"""
    toks, cur = [], ""
    for p in ps:
        if isinstance(p, str): cur += p
        else: toks += [cur, p]; cur = ""
    toks.append(cur)
    if len(toks) != 5: return f"{len(toks) // 2} contents instead of two"
    a, h, b, d, c = toks
    attrs = r"(\s[^<>]*)?"
    if not re.fullmatch(rf"<\?xml\s[^<>]*\?>\s*<Envelope{attrs}>\s*<AppHdr{attrs}>", a): return "start of the text: " + a[-120:]
    if not re.fullmatch(rf"</AppHdr>\s*<Document{attrs}>\s*<{root}>", b): return "between the contents: " + b[:160]
    if not re.fullmatch(rf"</{root}>\s*</Document>\s*</Envelope>\s*", c): return "end of the text: " + c[:120]
    for t, w, n in ((h, hdr, "header"), (d, body, "body")):
        if not isinstance(t, ext.TXE) or not same_value(x, st, t.what, w): return f"the {n} written is not the {n} of the message"
        bad = [r for r in t.reps if not safe(r)]
        if bad: return f"replacement in the {n}: {bad[0][0]}"
    return None
def written(k, claim):
    """claim: C12 (layout and contents) or C08 (root elements)"""
    C = k.C
    x, st, ok, p, hdr, doc, var = to_xml(k)
    x.panics = []
    base = list(st.pc)
    wrote = x.memo.get("writeok", [])
    hok = Or(*[o for v, o in wrote if same_value(x, st, v, hdr)])
    for e in CAT:
        i = var[e[0]]
        is_e = Eq(doc.d, i)
        body = doc.alts[i][0]
        def cand(what, raw=""): return lambda m, e=e: dict(expr=f"written({rust_str(e[0])}, {rust_str(raw)})", expect=[], ident={"what": what, "type": e[0], "content": raw})
        bad, roots = [], []
        for g, s in cases(p):
            if And(g, is_e) is False or s is UNDEF: continue
            r = shape(x, st, parts_of(s), hdr, body, e[3])
            if r: bad.append((g, r))
            t = "".join(q if isinstance(q, str) else "\0" for q in parts_of(s))
            if not re.search(rf"<Document[^<>]*>\s*<{e[3]}>\0</{e[3]}>", t): roots.append(g)
        if claim == "C12":
            for r in sorted({r for _, r in bad}) or [None]:
                raw = r.rsplit(": ", 1)[1] if r and r.startswith("replacement") else ""
                k.ob(x, base + [is_e, ok, Or(*[g for g, q in bad if q == r])], cand(f"written {e[0]}: {r and r[:100]}", raw))
            bok = Or(*[o for v, o in wrote if same_value(x, st, v, body)])
            k.ob(x, base + [is_e, zb(ok) != zb(And(hok, bok))], cand(f"written {e[0]}: failure of a writer"))
        else: k.ob(x, base + [is_e, ok, Or(*roots)], cand(f"root element of {e[0]}"))
        k.wit(x, base + [is_e, ok])
    C.samples.append({"function": "to_xml", "types": len(CAT), "claim": "layout and contents of the text" if claim == "C12" else "root elements"})

# ------------------------------------------------------------------ reading what was written
class Mixed(bstr.Base):
    """a text with fixed and symbolic bytes; the symbolic ones are never one of some characters"""
    def __init__(self, x, name, parts, never):
        self.name, self.memo, self.const, self.never = name, {}, None, {ord(c) for c in never}
        self.b = []
        for p in parts:
            if isinstance(p, str): self.b += list(p.encode("latin-1"))
            else:
                for i in range(p):
                    v = z3.BitVec(f"{name}.s{len(self.b)}", 8)
                    x.axiom(z3.And(z3.ULE(v, 0x7F), z3.UGE(v, 0x20), *[v != c for c in self.never]))
                    self.b.append(v)
        self.N = self.n = len(self.b)
    def is_(self, k, c):
        if k < self.N and is_z(self.b[k]) and (c in self.never or c < 0x20 or c > 0x7F): return False
        return super().is_(k, c)
    def cont(self, k): return False
    def width(self, k): return 1
    def char(self, k): return z3.ZeroExt(24, self.b[k]) if is_z(self.b[k]) else self.b[k]
    def text(self, m, lo=0, hi=None):
        bs = bytes(m.eval(b, model_completion=True).as_long() if is_z(b) else b for b in self.b)
        return bs[bstr.pv(m, lo):bstr.pv(m, self.n if hi is None else hi)]
def texts_written(k):
    """the parts of the text written for each type"""
    x, st, ok, p, hdr, doc, var = to_xml(k)
    out = {}
    for e in CAT:
        is_e = Eq(doc.d, var[e[0]])
        for g, s in cases(p):
            if s is UNDEF: continue
            if bstr.impossible(x, list(st.pc) + [is_e, ok, g])[0] != "unsat": out[e[0]] = parts_of(s); break
    return out
def reread(k, arg):
    """reading the written text gives the same kind (C08) and the same contents (C12)"""
    claim, part = arg
    C = k.C
    ws = texts_written(k)
    n = 24 if C.thorough else 10
    for e in CAT[part::5]:
        ps = ws.get(e[0])
        if ps is None: C.uncovered.append(f"text of {e[0]}"); continue
        x = k.X(); st = State()
        lay, seen = [], []
        for q in ps:
            if isinstance(q, str): lay.append(q)
            else: lay += ["<El>", n, "</El>"]; seen.append(len(lay) - 2)
        B = Mixed(x, "T", lay, "<>&")
        pos, cs = 0, []
        for i, q in enumerate(lay):
            w = len(q) if isinstance(q, str) else q
            if i in seen: cs.append((pos - 4, pos + w + 5))
            pos += w
        f = k.prog.fn(MSG + "::from_xml")
        r = x.call(st, f, [Str(BS(B, 0, B.n))])
        if len(r) != 1: raise Unsupported(f"from_xml: {[(b, c) for _, b, c in x.unsupported][:2]}")
        k.done(x, "from_xml"); panics = x.panics; x.panics = []
        st, v = r[0]
        ok, msg = okv(x, v)
        base = list(st.pc)
        def cand(what): return lambda m, e=e, B=B, cs=cs: dict(expr=f"written({rust_str(e[0])}, {rust_str(pyt(B.text(m))[cs[-1][0] + 4:cs[-1][1] - 5])})", expect=[], ident={"what": what, "type": e[0]})
        mine = module(e) + "::" + e[2]
        hr, br = reads(x, HDR), reads(x, mine)
        good_h = Or(*[And(used(q), q.ok) for q in hr]); good_b = Or(*[And(used(q), q.ok) for q in br])
        if claim == "C08":
            k.ob(x, base + [Or(*[used(q) for q in reads(x) if q.ty not in (mine, HDR)])], cand(f"reader of another type for {e[0]}"))
            k.ob(x, base + [good_h, good_b, Not(ok)], cand(f"{e[0]} refused"))
            dv = x.get1(x.expand(msg) if isinstance(msg, Lazy) else msg, ("f", fidx(k.prog, ext.ty_of(x, MSG), "document"))) if msg is not UNDEF else UNDEF
            c, _ = alt(x, dv, vidx(k.prog, ext.ty_of(x, DOC), variant(e)))
            k.ob(x, base + [ok, Not(c)], cand(f"kind of message read for {e[0]}"))
        else:
            for p_ in panics: k.ob(x, list(p_.pc), cand(f"panic: {p_.msg}"))
            def win(q, lo, hi, wrapped):
                pre, w, post = rope_window(q.text.t)
                if wrapped and not pre: return False
                return And(peq(trimmed(x, w).lo, lo), peq(trimmed(x, w).hi, hi))
            for q in hr:
                pre, w, post = rope_window(q.text.t)
                t = trimmed(x, w)
                k.ob(x, base + [used(q), Not(And(peq(t.lo, cs[0][0] if pre else cs[0][0] - 8), peq(t.hi, cs[0][1] if pre else cs[0][1] + 9)))], cand(f"header content of {e[0]}"))
            for q in br:
                pre, w, post = rope_window(q.text.t)
                t = trimmed(x, w); L = len(e[3]) + 2
                k.ob(x, base + [used(q), Not(And(not pre, peq(t.lo, cs[1][0] - L), peq(t.hi, cs[1][1] + L + 1)))], cand(f"body content of {e[0]}"))
            k.ob(x, base + [good_h, good_b, Not(ok)], cand(f"{e[0]} refused"))
            k.ob(x, base + [ok, Not(And(good_h, good_b))], cand(f"{e[0]} accepted unread"))
        k.wit(x, base + [ok])
    C.samples.append({"function": "from_xml(to_xml(m))", "types": [e[0] for e in CAT[part::5]], "content bytes": n})

# ------------------------------------------------------------------ JSON tags
def j_doc(k, _):
    C, prog = k.C, k.prog
    kind = lambda e, what: dict(expr=f"kind({rust_str(e[0])})", expect=[], ident={"what": what, "type": e[0]})
    R = serdemap.Roots(prog, "mx_envelope")
    ser, vis, fld = R.ser.get("Document"), R.vis.get("Document"), R.fld.get("Document")
    if not (ser and vis and fld): raise Unsupported("no derived reader or writer of the document")
    # writing
    ev = []
    x = serdemap.mkx(prog, {"unres:serde::Serializer::serialize_newtype_variant": lambda x, st, f, a, w: (ev.append((And(*st.pc), serdemap.reftext(x, st, a[3]), a[4], dict(st.mem))), intr.OK(Opq("serialized")))[1]})
    k.xs.append(x)
    st = State(); selfr = x.sym(ser.locals[1], "self"); sv = x.load(st, selfr)
    x.call(st, ser, [selfr, Opq("serializer")])
    k.done(x, "Document::serialize")
    dt = next(i for i, t in enumerate(prog.types) if t[0] == "adt" and t[1] == DOC)
    for e in CAT:
        i = vidx(prog, dt, variant(e))
        good = []
        for g, t, v, mem in ev:
            s2 = State({**st.mem, **mem})
            if t == e[3] and same_value(x, s2, v, sv.alts[i][0]): good.append(g)
        core_ob(k, x, [Eq(sv.d, i), Not(Or(*good))], kind(e, f"JSON tag written for {e[0]}"))
    # reading
    fv = {}
    x = serdemap.mkx(prog, {"unres:serde::de::Error::unknown_variant": lambda x, st, f, a, w: Opq("unknown")})
    k.xs.append(x)
    for e in CAT:
        r = x.call(State(), fld, [Opq("visitor"), Str(e[3])])
        v = r[0][1] if r else None
        C.obligations += 1
        if isinstance(v, Adt) and v.v == 0 and isinstance(v.f[0], Adt): fv[e[0]] = v.f[0].v; C.discharged += 1
        else: C.candidates.append(kind(e, f"JSON tag of {e[0]} refused"))
    # any other tag is refused
    s = x.new_str("tag")
    r = x.call(State(), fld, [Opq("visitor"), Str(s)])
    ok, _ = okv(x, r[0][1])
    from chk import mstr
    core_ob(k, x, [And(*[s != sval(e[3]) for e in CAT]), ok], lambda m: dict(expr=f"json!(serde_json::from_value::<Document>(json!({{ {rust_str(mstr(m, s))}: {{}} }})).map_err(|e| e.to_string().contains(\"unknown variant\")))", expect={"Err": True}, ident={"what": "unknown JSON tag", "tag": mstr(m, s)}))
    k.done(x, "Document tags")
    for e in CAT:
        if e[0] not in fv: continue
        log = []
        def nv(x, st, f, a, w):
            t = f[3][-1]
            log.append(t); return intr.OK(Lazy(t, f"payload{len(log)}", prog))
        x = serdemap.mkx(prog, {"unres:serde::de::EnumAccess::variant": lambda x, st, f, a, w: intr.OK(Tup([Adt(None, fv[e[0]], ()), Opq("access")])), "unres:serde::de::VariantAccess::newtype_variant": nv})
        k.xs.append(x)
        r = x.call(State(), vis, [Opq("visitor"), Opq("data")])
        k.done(x, "Document::deserialize")
        if not r: raise Unsupported("no value from the derived reader")
        v = r[0][1]
        ok, w = okv(x, v)
        c, pl = alt(x, w, vidx(prog, dt, variant(e)))
        tys = [prog.types[t] for t in log]
        inner = [prog.types[t[2][0]][1] if t[0] == "adt" and t[1].endswith("Box") else t[1] for t in tys]
        C.obligations += 1
        if log and c is True and inner == [module(e) + "::" + e[2]]: C.discharged += 1
        else: C.candidates.append(kind(e, f"value read for the JSON tag of {e[0]}"))
    # the message itself
    it = {"fields": [{"f": "xmlns", "x": "@xmlns", "c": "?s"}, {"f": "xmlns_xsi", "x": "@xmlns:xsi", "c": "?s"}, {"f": "app_hdr", "x": "AppHdr", "c": "1s"}, {"f": "document", "x": "Document", "c": "1s"}]}
    S = serdemap.St(); S.d["scripts"] = 0
    J = serdemap.Job(S, "mx_envelope", "MxMessage")
    serdemap.ser_struct(prog, R.ser["MxMessage"], J, it, 2)
    serdemap.de_struct(prog, R, J, it, C.thorough)
    d = S.d
    for n in ("obligations", "discharged", "unknown", "queries", "witnesses"): setattr(C, n, getattr(C, n) + d[n])
    C.uncovered += d["uncovered"]
    for c in d["candidates"]: C.candidates.append(kind(CAT[0], "JSON of a message: " + str(c.get("kind")) + " " + str(c.get("detail"))))
def core_ob(k, x, cs, cand):
    from chk import prove
    C = k.C
    C.obligations += 1
    r, m = prove(x, cs)
    if r == "unsat": C.discharged += 1
    elif r == "unknown": C.unknown += 1; C.uncovered.append(f"solver gave up: {m}")
    else: C.candidates.append(cand(m) if callable(cand) else cand)

# ------------------------------------------------------------------ lookups and dispatch by type name
def lookups(k, _):
    C = k.C
    kind = lambda e, what: lambda m: dict(expr=f"kind({rust_str(e[0])})", expect=[], ident={"what": what, "type": e[0]})
    x = k.X(); st = State()
    dt = ext.ty_of(x, DOC)
    d = Lazy(dt, "doc", k.prog); dv = x.expand(d)
    st, v = run1(k, x, DOC + "::namespace", [lambda x, st: x.alloc(st, d)])
    for e in CAT:
        want = "urn:iso:std:iso:20022:tech:xsd:" + e[1]
        k.ob(x, list(st.pc) + [Eq(dv.d, vidx(k.prog, dt, variant(e))), Not(bstr.beq(x, v, Str(want)))], kind(e, f"namespace of {e[0]}"))
    for fn, i, j in (("message_type_to_element", 0, 3), ("message_type_to_rust_type", 0, 2), ("element_to_message_type", 3, 0), ("get_full_form", 0, 1)):
        x = k.X()
        M, mt = bstr.new_text(x, "M", 48)
        st, v = run1(k, x, "message_registry::" + fn, [mt])
        some, p = alt(x, v, 1)
        for e in CAT:
            k.ob(x, list(st.pc) + [bstr.beq(x, mt, Str(e[i])), Not(And(some, p is not UNDEF and bstr.beq(x, x.deref_all(st, p), Str(e[j]))))], kind(e, f"{fn} of {e[i]}"))
def dispatch(k, part):
    """the typed reader and the JSON root name chosen for each type name; refusal of all other names"""
    C = k.C
    x = k.X()
    B = Mixed(x, "T", ["<Document><El>", 6, "</El></Document>"], "<>&")
    M, mt = bstr.new_text(x, "M", 24)
    kind = lambda e, what: lambda m: dict(expr=f"kind({rust_str(e[0])})", expect=[], ident={"what": what, "type": e[0]})
    if part == "json":
        st, v = run1(k, x, "xml::xml_to_json_via_document", [Str(BS(B, 0, B.n)), mt])
    else:
        st, v = run1(k, x, MSG + "::deserialize_document", [Str(BS(B, 10, B.n - 11)), mt])
    ok, p = okv(x, v)
    base = list(st.pc)
    sel = [bstr.beq(x, mt, Str(e[0])) for e in CAT] + [bstr.beq(x, mt, Str(e[1])) for e in CAT]
    for e, c in zip(CAT, sel):
        mine = module(e) + "::" + e[2]
        rs = reads(x, mine)
        k.ob(x, base + [c, Not(Or(*[used(r) for r in rs]))], kind(e, f"reader for {e[0]} ({part})"))
        k.ob(x, base + [c, Or(*[used(r) for r in reads(x) if r.ty != mine])], kind(e, f"another reader for {e[0]} ({part})"))
        if part == "json": g = only_key(x, ext.vpath(x, p, "Document")[1], e[3])
        else: g = alt(x, p, vidx(k.prog, ext.ty_of(x, DOC), variant(e)))[0]
        k.ob(x, base + [c, ok, Not(g)], kind(e, f"result for {e[0]} ({part})"))
        k.wit(x, base + [c, ok])
    rej = lambda m: dict(expr=f"{{ let mut bad = vec![]; for t in TYPES {{ let b = format!(\"<Document>{{}}</Document>\", body(t)); if xml_to_json_via_document(&b, {rust_str(mtext(m, M))}).is_ok() {{ bad.push(t.to_string()) }} }} json!(bad) }}", expect=[], ident={"what": "unsupported type name", "name": mtext(m, M)})
    k.ob(x, base + [ok, Not(Or(*sel))], rej)

PRE = """
fn of(short: &str, raw: &str) -> Option<MxMessage> { let b = body(short); let b = if raw.is_empty() { b } else { embed(&b, raw) }; Some(MxMessage::new(hv(), read(short, &b)?)) }
fn squeeze(t: &str) -> String { let mut s = t.to_string(); for n in ["Envelope", "AppHdr", "Document"] { if let Some(i) = s.find(&format!("<{n} ")) { let j = i + s[i..].find('>').unwrap(); s.replace_range(i..=j, &format!("<{n}>")); } } if let Some(i) = s.find("?>") { s.replace_range(0..i + 2, "<?xml?>"); } let mut o = String::new(); for c in s.chars() { if c.is_whitespace() && (o.is_empty() || o.ends_with('>')) { continue } o.push(c) } o }
fn docin(d: &Document) -> String { let v = serde_json::to_value(d).unwrap(); v.as_object().unwrap().keys().next().unwrap().clone() }
fn written(short: &str, raw: &str) -> Value {
    let mut bad = vec![];
    let raws: Vec<String> = vec![String::new(), raw.to_string()];
    for raw in raws {
        let Some(m) = of(short, &raw) else { continue };
        let t = match catch(|| m.to_xml()) { None => { bad.push(json!("panic")); continue } Some(Err(e)) => { bad.push(json!(e.to_string())); continue } Some(Ok(t)) => t };
        let el = element(short);
        let b = if raw.is_empty() { body(short) } else { embed(&body(short), &raw) };
        let inb = match read_text(short, &b) { Some(s) => s, None => continue };
        let want = format!("<?xml?><Envelope><AppHdr>{}</AppHdr><Document><{el}>{}</{el}></Document></Envelope>", hdr(), inb);
        if squeeze(&t) != squeeze(&want) { bad.push(json!({"written": t})); }
        match catch(|| MxMessage::from_xml(&t)) { Some(Ok(r)) => { if r.app_hdr != m.app_hdr || r.document != m.document { bad.push(json!({"reads back different": t})) } } _ => bad.push(json!({"does not read back": t})) }
    }
    bad.truncate(2); json!(bad) }
fn kind(short: &str) -> Value {
    use mx_message::message_registry as reg;
    let mut bad = vec![]; let el = element(short);
    let Some(m) = of(short, "") else { return json!(["no sample"]) };
    let mut want = |c: bool, w: &str| { if !c { bad.push(w.to_string()) } };
    let j = catch(|| serde_json::to_value(&m).unwrap());
    want(j.as_ref().is_some_and(|j| j["Document"].as_object().is_some_and(|o| o.len() == 1 && o.contains_key(el))), "JSON tag");
    want(j.as_ref().is_some_and(|j| j.get("AppHdr").is_some()), "JSON header");
    if let Some(j) = j { want(serde_json::from_value::<MxMessage>(j.clone()).is_ok_and(|r| r == m), "JSON read back"); want(MxMessage::from_json(&j.to_string()).is_ok_and(|r| r == m), "from_json"); }
    want(m.document.namespace() == format!("urn:iso:std:iso:20022:tech:xsd:{}", full(short)), "namespace of the document");
    let t = catch(|| m.to_xml().ok()).flatten().unwrap_or_default();
    want(t.contains(&format!("<Document><{el}>")) || squeeze(&t).contains(&format!("<Document><{el}>")), "root element written");
    want(catch(|| MxMessage::from_xml(&t).is_ok_and(|r| std::mem::discriminant(&r.document) == std::mem::discriminant(&m.document))) == Some(true), "kind read back");
    let env = format!("<Envelope><AppHdr>{}</AppHdr><Document>{}</Document></Envelope>", hdr(), body(short));
    want(catch(|| MxMessage::from_xml(&env).is_ok_and(|r| r == MxMessage { xmlns: None, xmlns_xsi: None, ..m.clone() })) == Some(true), "envelope read");
    want(catch(|| xml_to_json_via_document(&format!("<Document>{}</Document>", body(short)), short).ok()).flatten() == read_json(short, &body(short)).map(|v| json!({"Document": {el: v}})), "document-only conversion");
    want(reg::message_type_to_element(short) == Some(el), "element name"); want(reg::element_to_message_type(el) == Some(short), "type of the element");
    want(reg::message_type_to_rust_type(short) == Some(rust_type(short)), "body type"); want(reg::get_full_form(short) == Some(full(short)), "full form");
    json!(bad) }
"""
def prelude8():
    o = [prelude(), PRE, "const TYPES: &[&str] = &[" + ", ".join(rust_str(e[0]) for e in CAT) + "];"]
    o.append("fn full(short: &str) -> &'static str { match short { " + " ".join(f"{rust_str(e[0])} => {rust_str(e[1])}," for e in CAT) + ' _ => "" } }')
    o.append("fn rust_type(short: &str) -> &'static str { match short { " + " ".join(f"{rust_str(e[0])} => {rust_str(e[2])}," for e in CAT) + ' _ => "" } }')
    o.append("fn read_text(short: &str, t: &str) -> Option<String> { match short { " + " ".join(f"{rust_str(e[0])} => quick_xml::de::from_str::<{module(e)}::{e[2]}>(t).ok().map(|v| inner(&v))," for e in CAT) + " _ => None } }")
    return "\n".join(o)
def c08(k):
    k.C.bounds = {"types": "all 25", "messages": "any contents (read back: contents of at most 10 (thorough 24) free characters)", "type names": "any text of at most 24 bytes", "JSON tags": "any text"}
    return [(written, "C08")] + [(reread, ("C08", i)) for i in range(5)] + [(j_doc, None), (lookups, None), (dispatch, "json"), (dispatch, "typed")]
def c12(k):
    k.C.bounds = {"types": "all 25", "messages": "any contents, any outcome of the writers", "read back": "contents of at most 10 (thorough 24) free characters"}
    return [(written, "C12")] + [(reread, ("C12", i)) for i in range(5)]
JOBS = {"C08": c08, "C12": c12}
def work(job):
    mode, i, dump, names, thorough = job
    C = chk.Check(mode)
    k = TCtx(C, Prog(os.path.join(dump, "core.json"))); k.names = names
    f, a = JOBS[mode](k)[i]
    import time; t0 = time.time(); guard(C, f, k, a)
    if os.environ.get("VERIF_TIMES"): print(f"  {f.__name__} {str(a)[:60]}: {time.time() - t0:.0f}s", flush=True)
    for x in k.xs: C.absorb_x(x)
    return {n: getattr(C, n) for n in ("obligations", "discharged", "unknown", "queries", "solver_s", "witnesses", "stmts", "states", "edges", "functions", "contracts", "candidates", "uncovered", "samples", "notes")}
def main(mode):
    C = chk.Check(mode)
    os.environ["MIRDUMP_NAMES"] = ",".join(ROOTS)
    out, t = build.dump(["core", "n"], shards=1)
    C.cov["dump_s"] = round(t, 1)
    C.assumptions = ["quick-xml writes a structure as an element of the announced name, escaping texts, and serde_json a newtype variant as an object with the variant's name", "no element of the schemas bears the name of a message body type"]
    names = root_names(C, out)
    k = TCtx(C, None)
    n = len(JOBS[mode](k))
    for r in chk.pool_map(work, [(mode, i, out, names, C.thorough) for i in range(n)]):
        C.absorb(r); C.notes += r["notes"]
    if C.candidates: chk.confirm_probes(C, C.candidates, prelude8())
    C.finish()
if __name__ == "__main__": main(sys.argv[1])
