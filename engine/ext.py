"""Contracts for the external crates: quick-xml, serde_json, dataflow-rs, datafake-rs, tracing, chrono.

Readers and writers are functions of their argument with a symbolic outcome; JSON maps are a symbolic base
map with a list of guarded writes; the message of a workflow step is a struct whose context holds the data
and the metadata as arbitrary JSON.
"""
import z3
from val import *
import intr, bstr, rope
from intr import I, S, opt, SOME, NONE, OK, ERR
from bstr import BS, beq, map1, new_text, as_bs
from sym import Unsupported, State, X
from rope import Rope
VNULL, VBOOL, VNUM, VSTR, VARR, VOBJ = range(6)

def fb(x, what):
    x.nfresh += 1
    return z3.Bool(f"{what}!{x.nfresh}")
def contract(*paths):
    def d(f):
        for p in paths: I[p] = f
        return f
    return d
def vty(x):
    r = x.memo.get("vty")
    if r is None:
        for i, t in enumerate(x.prog.types):
            if t[0] == "adt" and t[1] == "serde_json::Value": r = i
        x.memo["vty"] = r
    return r
def ty_of(x, path):
    for i, t in enumerate(x.prog.types):
        if t[0] == "adt" and t[1] == path: return i
    raise Unsupported(f"type {path} is not in the tree")
def val(x, v, *f): return Adt(vty(x), v, f)
def res(okb, a, b):
    if not is_z(okb): return OK(a) if okb else ERR(b)
    return Sum(None, If(okb, 0, 1), {0: (a,), 1: (b,)})

# ------------------------------------------------------------------ JSON maps
class GONE: pass
def vite(x, c, a, b):
    if not is_z(c): return a if c else b
    if same(a, b): return a
    if isinstance(a, (Lazy, Ite)) and isinstance(b, (Lazy, Ite)) and not STRICT_VITE: return Ite(c, a, b)
    if isinstance(a, Lazy): a = x.expand(a)
    if isinstance(b, Lazy): b = x.expand(b)
    return ite(c, a, b)
STRICT_VITE = False
class MBase:
    """the unknown initial contents of a map: equal keys have equal entries"""
    def __init__(self, name, vty, prog): self.name, self.vty, self.prog, self.seen, self.first = name, vty, prog, [], None
    def lookup(self, x, key):
        for k, p, v in self.seen:
            if same(k, key): return p, v
        i = len(self.seen)
        p, v = z3.Bool(f"{self.name}.has{i}"), Lazy(self.vty, f"{self.name}.at{i}", self.prog)
        for k, q, w in self.seen:
            c = beq(x, k, key)
            p = ite(c, q, p); v = vite(x, c, w, v)
        self.seen.append((key, p, v))
        return p, v
    def first_key(self, x):
        """(non-empty, key) in iteration order"""
        if self.first is None:
            ne = z3.Bool(f"{self.name}.nonempty")
            k = x.lazy_str(f"{self.name}.key0")
            self.first = (ne, k)
            p, _ = self.lookup(x, k)
            x.axiom(Or(Not(ne), p))
        return self.first
class MapV(V):
    """base map (or none: empty) and guarded writes in order"""
    __slots__ = ("base", "ent")
    def __init__(self, base=None, ent=()): self.base, self.ent = base, tuple(ent)
    def __repr__(self): return f"MapV({self.base and self.base.name},{self.ent})"
    def mget(self, x, key):
        p, v = self.base.lookup(x, key) if self.base else (False, UNDEF)
        for g, k, w in self.ent:
            c = And(g, beq(x, k, key))
            if c is False: continue
            if w is GONE: p = And(Not(c), p)
            else:
                p = Or(c, p); v = w if v is UNDEF else vite(x, c, w, v)
        return p, v
    def mput(self, x, key, v): return MapV(self.base, self.ent + ((True, key, v),))
    def vsame(self, o): return isinstance(o, MapV) and o.base is self.base and len(o.ent) == len(self.ent) and all(same(a[0], b[0]) and same(a[1], b[1]) and (a[2] is b[2] or same(a[2], b[2])) for a, b in zip(self.ent, o.ent))
    def vmerge(self, g, o):
        if not isinstance(o, MapV) or o.base is not self.base: return None
        n = 0
        while n < min(len(self.ent), len(o.ent)) and all(same(p, q) if p is not GONE and q is not GONE else p is q for p, q in zip(self.ent[n], o.ent[n])): n += 1
        return MapV(self.base, self.ent[:n] + tuple((And(g, c), k, v) for c, k, v in self.ent[n:]) + tuple((And(Not(g), c), k, v) for c, k, v in o.ent[n:]))
def lazy_map(x, v, t):
    return MapV(MBase(v.name, t[2][1], v.prog))
def emap(x, st, v):
    v = x.deref_all(st, v)
    if isinstance(v, (MapV, Ite)): return v
    raise Unsupported(f"map expected, got {type(v).__name__}")
def mlookup(x, m, key):
    if isinstance(m, Lazy): m = x.expand(m)
    if isinstance(m, Ite):
        (p, v), (q, w) = mlookup(x, m.a, key), mlookup(x, m.b, key)
        return ite(m.g, p, q), (v if w is UNDEF else w if v is UNDEF else vite(x, m.g, v, w))
    return m.mget(x, key)
def refput(x, r, *e):
    if isinstance(r, Ite): return Ite(r.g, refput(x, r.a, *e), refput(x, r.b, *e))
    if isinstance(r, Ref): return Ref(r.cell, r.path + e)
    raise Unsupported(f"place expected, got {type(r).__name__}")
def lift(x, st, v):
    """a reference to the value v (one is made when v is no place)"""
    if isinstance(v, Lazy): v = x.expand(v)
    if isinstance(v, (Ref, Ite)): 
        # collapse chains of references
        for _ in range(6):
            w = x.load(st, v)
            if isinstance(w, Lazy): w = x.expand(w)
            if isinstance(w, Ref): v = w
            elif isinstance(w, Ite) and isinstance(w.a, (Ref, Ite)) and isinstance(cases(w)[0][1], Ref): v = w
            else: return v
    return x.alloc(st, v)
MP = "serde_json::Map::<std::string::String, serde_json::Value>::"
@contract(MP + "new", MP + "with_capacity", "<serde_json::Map<std::string::String, serde_json::Value> as std::default::Default>::default")
def _map_new(x, st, fn, a, w): return MapV()
@contract(MP + "insert")
def _map_insert(x, st, fn, a, w):
    r = lift(x, st, a[0]); m = emap(x, st, r); k = S(x, st, a[1])
    p, v = mlookup(x, m, k)
    x.store(st, r, map_put(x, m, k, a[2]))
    return opt(st, p, v) if v is not UNDEF else NONE()
def map_put(x, m, k, v):
    if isinstance(m, Ite): return ite(m.g, map_put(x, m.a, k, v), map_put(x, m.b, k, v))
    return m.mput(x, k, v)
@contract(MP + "remove")
def _map_remove(x, st, fn, a, w):
    r = lift(x, st, a[0]); m = emap(x, st, r); k = S(x, st, a[1])
    p, v = mlookup(x, m, k)
    x.store(st, r, map_put(x, m, k, GONE))
    return opt(st, p, v) if v is not UNDEF else NONE()
@contract(MP + "get", MP + "get_mut")
def _map_get(x, st, fn, a, w):
    r = lift(x, st, a[0]); k = S(x, st, a[1])
    p, v = mlookup(x, emap(x, st, r), k)
    return opt(st, p, refput(x, r, ("m", k))) if v is not UNDEF else NONE()
@contract(MP + "contains_key")
def _map_has(x, st, fn, a, w): return mlookup(x, emap(x, st, a[0]), S(x, st, a[1]))[0]
def first_key(x, m):
    if isinstance(m, Ite):
        (p, k), (q, l) = first_key(x, m.a), first_key(x, m.b)
        return ite(m.g, p, q), (k if l is None else l if k is None else ite(m.g, k, l))
    if m.base is None and not m.ent: return False, None
    if m.base is None and len(m.ent) == 1 and m.ent[0][0] is True and m.ent[0][2] is not GONE: return True, m.ent[0][1]
    if m.base is not None and not m.ent: return m.base.first_key(x)
    if m.base is None and all(isinstance(k, Str) and isinstance(k.t, str) for _, k, _ in m.ent):
        some, key = False, None
        for t in sorted({k.t for _, k, _ in m.ent}, reverse=True):
            p = m.mget(x, Str(t))[0]
            if p is False: continue
            key = Str(t) if key is None else ite(p, Str(t), key)
            some = Or(p, some)
        return some, key
    raise Unsupported("first key of a modified map")
class KeysIt(V):
    __slots__ = ("m", "what", "n")
    def __init__(self, m, what, n): self.m, self.what, self.n = m, what, n
    def collected(self, x, st): return Opq("collected", self.what, emap(x, st, self.m))
@contract(MP + "keys", MP + "iter", MP + "values")
def _map_keys(x, st, fn, a, w): 
    r = lift(x, st, a[0])
    return KeysIt(r, fn.path.split("::")[-1], 0)
def _keys_next(x, st, fn, a, w):
    it = x.load(st, a[0])
    if not isinstance(it, KeysIt) or it.n: raise Unsupported("iteration over the keys of a map")
    p, k = first_key(x, emap(x, st, it.m))
    x.store(st, a[0], KeysIt(it.m, it.what, 1))
    if k is None: return NONE()
    if it.what == "keys": v = k
    elif it.what == "values": v = refput(x, it.m, ("m", k))
    else: v = Tup((k, refput(x, it.m, ("m", k))))
    return opt(st, p, v)
for n_ in ("Keys", "Iter", "Values"):
    for l in ("'_", "'a"): I[f"<serde_json::map::{n_}<{l}> as std::iter::Iterator>::next"] = _keys_next
def nonempty(x, m):
    if isinstance(m, Ite): return ite(m.g, nonempty(x, m.a), nonempty(x, m.b))
    return first_key(x, m)[0]
@contract(MP + "is_empty")
def _map_empty(x, st, fn, a, w): return Not(nonempty(x, emap(x, st, a[0])))

# ------------------------------------------------------------------ JSON values
VP = "serde_json::Value::"
def kind(x, v, k):
    """is the value of kind k?"""
    if isinstance(v, Lazy): v = x.expand(v)
    if isinstance(v, Ite): return ite(v.g, kind(x, v.a, k), kind(x, v.b, k))
    if isinstance(v, Adt): return v.v == k
    if isinstance(v, Sum): return Eq(v.d, k) if k in v.alts else False
    raise Unsupported(f"JSON value expected, got {type(v).__name__}")
def payload(x, v, k):
    """payload of kind k (UNDEF when it cannot be of that kind)"""
    if isinstance(v, Lazy): v = x.expand(v)
    if isinstance(v, Ite):
        a, b = payload(x, v.a, k), payload(x, v.b, k)
        return b if a is UNDEF else a if b is UNDEF else vite(x, v.g, a, b)
    if isinstance(v, Adt): return v.f[0] if v.v == k else UNDEF
    if isinstance(v, Sum): 
        r = v.alts[k][0] if k in v.alts else UNDEF
        return x.expand(r) if isinstance(r, Lazy) else r
    raise Unsupported(f"JSON value expected, got {type(v).__name__}")
def is_kind(k):
    return lambda x, st, fn, a, w: kind(x, x.deref_all(st, a[0]), k)
for n_, k_ in (("is_null", VNULL), ("is_boolean", VBOOL), ("is_number", VNUM), ("is_string", VSTR), ("is_array", VARR), ("is_object", VOBJ)): I[VP + n_] = is_kind(k_)
def as_kind(k):
    def h(x, st, fn, a, w):
        r = lift(x, st, a[0]); v = x.deref_all(st, r)
        c = kind(x, v, k)
        if c is False: return NONE()
        p = payload(x, v, k)
        return opt(st, c, p if k in (VSTR, VBOOL) else refput(x, r, ("d", k), ("f", 0)))
    return h
for n_, k_ in (("as_str", VSTR), ("as_bool", VBOOL), ("as_object", VOBJ), ("as_object_mut", VOBJ), ("as_array", VARR), ("as_array_mut", VARR)): I[VP + n_] = as_kind(k_)
I[VP + "as_null"] = lambda x, st, fn, a, w: opt(st, kind(x, x.deref_all(st, a[0]), VNULL), UNIT)
@contract(VP + "get", VP + "get_mut")
def _vget(x, st, fn, a, w):
    r = lift(x, st, a[0]); v = x.deref_all(st, r)
    i = x.deref_all(st, a[1])
    if not isinstance(i, (Str, Ite)): raise Unsupported("JSON value indexed by position")
    k = S(x, st, i)
    c = kind(x, v, VOBJ)
    if c is False: return NONE()
    p, e = mlookup(x, emap(x, st, payload(x, v, VOBJ)), k)
    if e is UNDEF: return NONE()
    return opt(st, And(c, p), refput(x, r, ("d", VOBJ), ("f", 0), ("m", k)))
def vpath(x, v, key):
    """(present, value) of a key of a JSON value"""
    c = kind(x, v, VOBJ)
    if c is False: return False, UNDEF
    m = payload(x, v, VOBJ)
    p, e = mlookup(x, m, Str(key) if isinstance(key, str) else key)
    return And(c, p), e
@contract("serde_json::value::index::<impl std::ops::Index<I> for serde_json::Value>::index", "<serde_json::Value as std::ops::Index<I>>::index")
def _vindex(x, st, fn, a, w):
    r = lift(x, st, a[0]); v = x.deref_all(st, r); k = S(x, st, a[1])
    p, e = vpath(x, v, k)
    nul = x.alloc(st, val(x, VNULL))
    if e is UNDEF or p is False: return nul
    return ite(p, refput(x, r, ("d", VOBJ), ("f", 0), ("m", k)), nul)
@contract("serde_json::value::index::<impl std::ops::IndexMut<I> for serde_json::Value>::index_mut", "<serde_json::Value as std::ops::IndexMut<I>>::index_mut")
def _vindex_mut(x, st, fn, a, w):
    r = lift(x, st, a[0]); v = x.deref_all(st, r); k = S(x, st, a[1])
    nul, obj = kind(x, v, VNULL), kind(x, v, VOBJ)
    out = []
    for s2, b in x.branch(st, Or(nul, obj)):
        s2 = s2.copy()
        if not b: x.panic(s2, "cannot access key in JSON value that is no object", w[0], w[1]); continue
        m = payload(x, v, VOBJ)
        m = MapV() if m is UNDEF else m if nul is False else ite(nul, MapV(), m)
        p, e = mlookup(x, m, k)
        e = val(x, VNULL) if e is UNDEF else vite(x, p, e, val(x, VNULL))
        x.store(s2, r, val(x, VOBJ, map_put(x, m, k, e)))
        out.append((s2, refput(x, r, ("d", VOBJ), ("f", 0), ("m", k))))
    return out
@contract("<serde_json::Value as std::clone::Clone>::clone", "<serde_json::Map<std::string::String, serde_json::Value> as std::clone::Clone>::clone")
def _vclone(x, st, fn, a, w): return x.deref_all(st, a[0])
@contract("<serde_json::Value as std::default::Default>::default")
def _vdef(x, st, fn, a, w): return val(x, VNULL)
@contract("serde_json::Value::take")
def _vtake(x, st, fn, a, w):
    v = x.load(st, a[0]); x.store(st, a[0], val(x, VNULL)); return v
def value_from(x, st, v):
    """JSON value of a Rust primitive, text, list of texts or value"""
    v = x.deref_all(st, v)
    if isinstance(v, Ite): return vite(x, v.g, value_from(x, st, v.a), value_from(x, st, v.b))
    if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)): return val(x, VBOOL, v)
    if isinstance(v, Str): return val(x, VSTR, v)
    if isinstance(v, int) or is_z(v): return val(x, VNUM, v)
    if isinstance(v, Vec): return val(x, VARR, Vec([(g, value_from(x, st, e)) for g, e in v.e], v.mono))
    if isinstance(v, Arr): return val(x, VARR, Vec([(True, value_from(x, st, e)) for e in v.f]))
    if isinstance(v, MapV): return val(x, VOBJ, v)
    if v == UNIT: return val(x, VNULL)
    return None
def _into_value(x, st, fn, a, w):
    r = value_from(x, st, a[0])
    if r is None: raise Unsupported("conversion into a JSON value")
    return r
intr.pattern(lambda f: "serde_json::Value as std::convert::From<" in f.path or "std::convert::From<" in f.path and f.path.endswith("for serde_json::Value>::from"))(_into_value)

# ------------------------------------------------------------------ readers and writers
def is_value(x, v):
    if isinstance(v, Ite): return is_value(x, v.a) and is_value(x, v.b)
    if isinstance(v, Lazy): return v.ty == vty(x)
    return isinstance(v, (Adt, Sum)) and v.ty == vty(x)
def unref(prog, t):
    while prog.types[t][0] == "ref" or (prog.types[t][0] == "adt" and prog.types[t][1] == "std::boxed::Box"):
        t = prog.types[t][1] if prog.types[t][0] == "ref" else prog.types[t][2][0]
    return t
class Read:
    """one call of a reader: type read, text, outcome"""
    __slots__ = ("fmt", "ty", "text", "ok", "val", "uses")
def read_text(x, st, fmt, ty, s, pc, g=True):
    if isinstance(s, Ite): return vite(x, s.g, read_text(x, st, fmt, ty, s.a, pc, And(g, s.g)), read_text(x, st, fmt, ty, s.b, pc, And(g, Not(s.g))))
    L = x.memo.setdefault("reads", [])
    tn = x.prog.types[ty][1] if x.prog.types[ty][0] == "adt" else str(ty)
    for r in L:
        if r.fmt == fmt and r.ty == tn and same(r.text, s): break
    else:
        r = Read(); r.fmt, r.ty, r.text, r.uses = fmt, tn, s, []
        i = len(L)
        if fmt == "json" and ty == vty(x) and x.memo.get("jsontext") and (o := [v for t, v in x.memo["jsontext"] if same(t, s)]):
            r.ok, r.val = True, o[0]
        else:
            r.ok = z3.Bool(f"{fmt}{i}.ok"); r.val = Lazy(ty, f"{fmt}{i}", x.prog)
        L.append(r)
    r.uses.append(And(g, *pc))
    return res(r.ok, r.val, Opq("readerror", fmt, r.ty, s))
def reader(fmt):
    def h(x, st, fn, a, w):
        ty = [t for t in fn.targs if isinstance(t, int)][-1]
        return read_text(x, st, fmt, ty, S(x, st, a[0]), st.pc)
    return h
I["quick_xml::de::from_str"] = reader("xml")
I["serde_json::from_str"] = reader("json")
def peel(x, st, v):
    """follow references without laying values open"""
    for _ in range(8):
        if isinstance(v, Ref):
            c = st.mem.get(v.cell)
            v = x.get(c if c is not None else x.cell(st, v.cell), v.path)
        elif isinstance(v, Lazy) and v.prog.types[v.ty][0] == "ref": v = x.expand(v)
        else: break
    return v
def jsonform(x, st, v, ty):
    """(ok, value): the JSON form of a typed value"""
    v = peel(x, st, v)
    if isinstance(v, Ite) and all(isinstance(u, (Lazy, Ref)) for _, u in cases(v)):
        (p, a), (q, b) = jsonform(x, st, v.a, ty), jsonform(x, st, v.b, ty)
        return (ite(v.g, zb(p), zb(q)) if is_z(p) or is_z(q) else ite(v.g, p, q)), vite(x, v.g, a, b)
    v = x.deref_all(st, v) if not isinstance(v, Lazy) else v
    p = value_from(x, st, v) if not is_value(x, v) and not isinstance(v, Lazy) else None
    if p is not None: return True, p
    if isinstance(v, Lazy) and v.ty == vty(x) or is_value(x, v): return True, v
    L = x.memo.setdefault("jsonforms", [])
    for u, r in L:
        if same(u, v) or isinstance(u, Lazy) and same(x.expand(u), v) or isinstance(v, Lazy) and same(u, x.expand(v)): return r
    i = len(L)
    h = x.memo.get("jsonform_hook")
    r = h(x, st, v, ty, i) if h else None
    if r is None: r = (z3.Bool(f"json({i}).ok"), Lazy(vty(x), f"json({i})", x.prog))
    L.append((v, r))
    return r
@contract("serde_json::to_value")
def _to_value(x, st, fn, a, w):
    ty = unref(fn.prog, fn.targs[-1])
    v = a[0]
    if isinstance(v, Ref):
        u = x.get(x.cell(st, v.cell), v.path)
        v = u if isinstance(u, Lazy) and x.prog.types[u.ty][0] == "adt" and not x.prog.types[u.ty][1].startswith("std::") else v
    ok, j = jsonform(x, st, v, ty)
    return res(ok, j, Opq("jsonerror", str(ty)))
def jsontext(x, j, how="compact"):
    """the text of a JSON value: some text that is a function of the value"""
    if isinstance(j, Lazy): j = x.expand(j)
    L = x.memo.setdefault("jsontext_of", [])
    for v, h, t in L:
        if h == how and same(v, j): return t
    t = x.lazy_str(f"jsontext{len(L)}")
    L.append((j, how, t)); x.memo.setdefault("jsontext", []).append((t, j))
    return t
def to_string_of(how):
    def h(x, st, fn, a, w):
        ok, j = jsonform(x, st, a[0], unref(fn.prog, fn.targs[-1]))
        return res(ok, jsontext(x, j, how), Opq("jsonerror", how))
    return h
I["serde_json::to_string"] = to_string_of("compact")
I["serde_json::to_string_pretty"] = to_string_of("pretty")
_old_ts = I["<T as std::string::ToString>::to_string"]
def _value_to_string(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    if is_value(x, v): return jsontext(x, v)
    return _old_ts(x, st, fn, a, w)
I["<T as std::string::ToString>::to_string"] = _value_to_string
I["<serde_json::Value as std::string::ToString>::to_string"] = _value_to_string

# ------------------------------------------------------------------ text building
@contract("std::string::String::push_str")
def _push_str(x, st, fn, a, w):
    cur = S(x, st, x.load(st, a[0]))
    x.store(st, a[0], intr.concat(x, st, [cur, S(x, st, a[1])]))
    return UNIT
@contract("std::string::String::push")
def _push(x, st, fn, a, w):
    if is_z(a[1]): raise Unsupported("push of a symbolic character")
    cur = S(x, st, x.load(st, a[0]))
    x.store(st, a[0], intr.concat(x, st, [cur, Str(bstr.utf8(a[1]))]))
    return UNIT
def _replace(x, st, fn, a, w):
    pat = x.deref_all(st, a[1])
    if isinstance(pat, Ite) or not isinstance(pat, (Str, int)): raise Unsupported("replace of a pattern")
    if isinstance(pat, int): pat = Str(bstr.utf8(pat))
    to = S(x, st, a[2])
    return map1(S(x, st, a[0]), lambda s: replace1(x, s, pat, to))
for p_ in ("std::str::<impl str>::replace", "core::str::<impl str>::replace", "alloc::str::<impl str>::replace"): I[p_] = _replace
def replace1(x, s, pat, to):
    if not isinstance(pat.t, str) or not isinstance(to, Str) or not isinstance(to.t, str): raise Unsupported("replace of a symbolic pattern")
    p, q = pat.t, to.t
    if not p: raise Unsupported("replace of the empty text")
    if isinstance(s.t, str): return Str(s.t.replace(p, q))
    if isinstance(s.t, Rope): return Str(rope.mk([u.replace(p, q) if isinstance(u, str) else replace_part(x, u, p, q) for u in s.t.parts]))
    r = replace_part(x, s.t, p, q)
    return Str(r)
class TXE(V):
    """opaque piece of written text (element content), with the replacements applied to it"""
    __slots__ = ("what", "reps")
    def __init__(self, what, reps=()): self.what, self.reps = what, tuple(reps)
    def vsame(self, o): return isinstance(o, TXE) and same(self.what, o.what) and self.reps == o.reps
    def vmerge(self, g, o): return None
    def merge(self, g, o): return None
    def __repr__(self): return f"TXE({self.what},{self.reps})"
def replace_part(x, u, p, q):
    if isinstance(u, TXE): return TXE(u.what, u.reps + ((p, q),))
    if isinstance(u, BS): return replace_bs(x, u, p, q)
    raise Unsupported("replace in an opaque text")
def replace_bs(x, b, p, q):
    L, M = len(p), len(q)
    if any(p[i:] == p[:L - i] for i in range(1, L)) or M > L: raise Unsupported("replace of this pattern")
    if x.memo.get("no_unescape") == p:      # the caller assumes the pattern does not occur
        x.axiom(Not(bstr.first(b, bstr.lit_pat(p))[0])); return b
    key = ("repl", b.base.name, str(b.lo), str(b.hi), p, q)
    if key in x.memo: return x.memo[key]
    B, N = b.base, b.base.N
    if B.const is not None: raise Unsupported("replace in a constant")
    x.nfresh += 1
    R = bstr.Base(x, f"repl!{x.nfresh}", N)
    hit = [bstr.nameb(x, bstr.occ(b, bstr.lit_pat(p), k)) for k in range(N)]
    # out position of input position k
    pos = bstr.P(0)
    for k in range(N):
        inside = And(bstr.ple(b.lo, k), bstr.plt(k, b.hi))
        covered = Or(*[hit[k - i] for i in range(1, L) if k - i >= 0])
        keep = And(inside, Not(hit[k]), Not(covered))
        for j in range(k + 1):
            if keep is not False: x.axiom(z3.Implies(zb(And(keep, pos == j)), R.b[j] == B.b[k]))
            if hit[k] is not False and q: x.axiom(z3.Implies(zb(And(hit[k], pos == j)), z3.And(*[R.b[j + i] == ord(c) for i, c in enumerate(q)])))
        nxt = pos + If(keep, bstr.P(1), If(hit[k], bstr.P(M), bstr.P(0)))
        pos = bstr.name(x, True, z3.simplify(nxt))
    x.axiom(R.n == pos)
    x.memo[key] = BS(R, 0, R.n)
    return x.memo[key]

# ------------------------------------------------------------------ written XML
@contract("quick_xml::se::to_string")
def _xml_string(x, st, fn, a, w):
    ty = unref(fn.prog, fn.targs[-1])
    t = fn.prog.types[ty]
    v = a[0]
    for _ in range(6):
        if isinstance(v, Ref):
            u = x.get(x.cell(st, v.cell), v.path)
            v = u
            if isinstance(u, Lazy) and u.ty == ty: break
        elif isinstance(v, Lazy): v = x.expand(v)
        else: break
    L = x.memo.setdefault("writes", [])
    for u, r in L:
        if same(u, v): return r
    ok = z3.Bool(f"xmlwrite{len(L)}.ok")
    nm = x.memo.get("xml_name", lambda t: t[1].split("::")[-1])(t)
    r = res(ok, Str(Rope([f"<{nm}>", TXE(v), f"</{nm}>"])), Opq("writeerror", t[1]))
    L.append((v, r)); x.memo.setdefault("writeok", []).append((v, ok))
    return r

# ------------------------------------------------------------------ logging, time
def lvl(x, st, fn, a, w): return x.memo.get("logging", False)     # whether a subscriber listens is not the code's choice
intr.pattern(lambda f: "as std::cmp::PartialOrd<tracing::level_filters::LevelFilter>>::" in f.path)(lvl)
@intr.pattern(lambda f: f.path.startswith(("tracing::", "<tracing::")) or " as tracing::" in f.path)
def _tracing(x, st, fn, a, w):
    """logging has no effect on the program; spans and events are opaque, an instrumented future is the future"""
    n = fn.path.rsplit("::", 1)[1]
    if n in ("is_never", "is_disabled"): return Not(x.memo.get("logging", False))
    if n in ("is_always", "is_sometimes", "is_enabled", "__is_enabled", "has_field"): return x.memo.get("logging", False)
    if n in ("instrument", "in_current_span"): return a[0]
    if n == "poll":
        v = a[0]
        while isinstance(v, Adt) and len(v.f) == 1: v = v.f[0]
        co = x.load(st, v)
        if not isinstance(co, Co): raise Unsupported("poll of an instrumented future")
        return x.call(st, co.prog.fns[co.prog.types[co.ty][3]], [v, a[1]], w)
    if n in ("in_scope", "with_subscriber", "eq", "ne"): raise Unsupported(f"logging: {n}")
    return Opq("log", n)
@contract("chrono::Utc::now")
def _now(x, st, fn, a, w):
    x.nfresh += 1
    return Opq("now", x.nfresh)
intr.pattern(lambda f: f.path.startswith("chrono::DateTime::<") and f.path.endswith("::to_rfc3339"))(lambda x, st, fn, a, w: intr.opaque_display(x, "rfc3339", x.deref_all(st, a[0])))

# ------------------------------------------------------------------ dataflow-rs
DP = "dataflow_rs::Message::"
def field(x, ty, name):
    for i, (n, _) in enumerate(x.prog.types[ty][4][0][2]):
        if n == name: return i
    raise Unsupported(f"field {name}")
def part(key):
    def h(x, st, fn, a, w):
        r = lift(x, st, a[0])
        return refput(x, r, ("f", field(x, ty_of(x, "dataflow_rs::Message"), "context")), ("d", VOBJ), ("f", 0), ("m", Str(key)))
    return h
for n_, k_ in (("data", "data"), ("data_mut", "data"), ("metadata", "metadata"), ("metadata_mut", "metadata"), ("temp_data", "temp_data"), ("temp_data_mut", "temp_data")): I[DP + n_] = part(k_)
@contract(DP + "invalidate_context_cache")
def _inval(x, st, fn, a, w):
    x.store(st, refput(x, lift(x, st, a[0]), ("f", field(x, ty_of(x, "dataflow_rs::Message"), "context_arc_cache"))), NONE())
    return UNIT

# ------------------------------------------------------------------ datafake-rs
@contract("datafake_rs::DataGenerator::from_value")
def _gen_new(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    L = x.memo.setdefault("gens", [])
    for u, r in L:
        if same(u, v): return r
    i = len(L)
    r = res(z3.Bool(f"scenario{i}.ok"), Opq("generator", i), Opq("datafake error", i))
    L.append((v, r)); return r
@contract("datafake_rs::DataGenerator::generate")
def _gen(x, st, fn, a, w):
    g = x.deref_all(st, a[0])
    L = x.memo.setdefault("generated", [])
    i = len(L)
    ok, v = z3.Bool(f"generate{i}.ok"), Lazy(vty(x), f"generated{i}", x.prog)
    L.append((g, ok, v, And(*st.pc)))
    return res(ok, v, Opq("datafake error", i))

# ------------------------------------------------------------------ equality of values
def veq(x, a, b, depth=0):
    """condition under which two JSON (or opaque) values are equal; sound for "equal", may be too strict for maps"""
    if isinstance(a, Lazy) and isinstance(b, Lazy) and a.name == b.name: return True
    if same(a, b): return True
    if isinstance(a, Lazy) and isinstance(b, Lazy) and a.ty == b.ty: return False     # two unknown values
    if depth > 60: return False
    if isinstance(a, Ite): return ite(a.g, veq(x, a.a, b, depth + 1), veq(x, a.b, b, depth + 1))
    if isinstance(b, Ite): return ite(b.g, veq(x, a, b.a, depth + 1), veq(x, a, b.b, depth + 1))
    if isinstance(a, Lazy): a = x.expand(a)
    if isinstance(b, Lazy): b = x.expand(b)
    if isinstance(a, Str) and isinstance(b, Str):
        try: return beq(x, a, b)
        except Unsupported: return False
    if isinstance(a, (Adt, Sum)) and isinstance(b, (Adt, Sum)):
        aa, ba = ({a.v: a.f} if isinstance(a, Adt) else a.alts), ({b.v: b.f} if isinstance(b, Adt) else b.alts)
        da, db = (a.v if isinstance(a, Adt) else a.d), (b.v if isinstance(b, Adt) else b.d)
        out = []
        for k in aa:
            if k not in ba: continue
            c = And(Eq(da, k), Eq(db, k))
            if c is False: continue
            out.append(And(c, *[veq(x, p, q, depth + 1) for p, q in zip(aa[k], ba[k])]))
        return Or(*out)
    if isinstance(a, (Tup, Arr)) and isinstance(b, (Tup, Arr)): return And(len(a.f) == len(b.f), *[veq(x, p, q, depth + 1) for p, q in zip(a.f, b.f)])
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base is not b.base: return False
        ks = []
        for _, k, _ in a.ent + b.ent:
            if not any(same(k, o) for o in ks): ks.append(k)
        return And(*[meq(x, a.mget(x, k), b.mget(x, k), depth) for k in ks])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.e) == len(b.e): return And(*[And(Eq(zb(g), zb(h)) if is_z(g) or is_z(h) else g == h, Or(Not(g), veq(x, p, q, depth + 1))) for (g, p), (h, q) in zip(a.e, b.e)])
        return False
    if is_z(a) or is_z(b) or isinstance(a, (int, bool)): 
        return Eq(a, b) if not isinstance(a, V) and not isinstance(b, V) else False
    return False
def meq(x, p, q, depth):
    (g, v), (h, w) = p, q
    ge = Eq(g, h) if not is_z(g) and not is_z(h) else zb(g) == zb(h)
    return And(ge, Or(Not(g), veq(x, v, w, depth + 1))) if v is not UNDEF and w is not UNDEF else ge
def mk(prog, **k):
    x = bstr.mk(prog, **k)
    x.hooks["lazy:serde_json::Map"] = lazy_map
    x.hooks["lazy:serde_json::Number"] = lambda x, v, t: Opq("number", v.name)
    return x
