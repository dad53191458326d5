"""Contracts for the string, character, slice and iterator functions of std that code under check may use.

Texts are byte-string windows (bstr).  A contract that cannot express its answer returns NotImplemented (the body,
when there is one, is executed instead) or raises Unsupported.
"""
import z3
from val import *
import intr, strs
from intr import I, S, opt, SOME, NONE, OK, ERR, concat
from rope import Rope
from sym import Unsupported
import bstr
from bstr import (BS, Base, P, Pat, SP, ChIt, as_bs, sub, map1, over, pattern, first, last, occ, wid, span, name, nameb, nm, padd, psub, ple, plt, peq, pite,
                  char_pat, lit_pat, starts, ends, beq, bytes_of, it_step, isws, WSP, cut, index_ty, symbolic, pv)

STRM = "std::str::<impl str>::"
def reg(*paths):
    def d(f):
        for p in paths: I[p] = f
        return f
    return d
def const(s): return isinstance(s, Str) and isinstance(s.t, str)
def txt(x, s): return s.t.encode("latin-1").decode() if x.bytes_mode else s.t
def mk(x, u): return Str(u.encode().decode("latin-1") if x.bytes_mode else u)

# ------------------------------------------------------------------ letter case
UPR, LWR = (65, 90), (97, 122)
def inr(b, r): return r[0] <= b <= r[1] if not is_z(b) else z3.And(z3.UGE(b, r[0]), z3.ULE(b, r[1]))
def flip(b, r, d):
    if not is_z(b): return b + d if r[0] <= b <= r[1] else b
    return z3.If(inr(b, r), b + d, b)
def mapped(x, b, kind):
    """the window over the text with ASCII letters turned to lower / upper case"""
    B = b.base
    if B.const is not None:
        t = B.const
        f = (lambda c: c.lower()) if kind == "lower" else (lambda c: c.upper())
        return as_bs(x, Str("".join(f(c) if c.isascii() else c for c in t)))
    k = ("case", kind)
    if k not in B.memo:
        D = Base.derived(x, [flip(v, UPR if kind == "lower" else LWR, 32 if kind == "lower" else -32) for v in B.b]); D.n = B.n
        B.memo[k] = D
    return BS(B.memo[k], b.lo, b.hi)
def ascii_case(kind):
    def f(x, st, fn, s, a, w):
        def one(s):
            if const(s): return Str("".join((c.lower() if kind == "lower" else c.upper()) if c.isascii() else c for c in s.t))
            b = mapped(x, as_bs(x, s), kind); return sub(b, b.lo, b.hi)
        return map1(s, one)
    return f
def uni_case(kind):
    """Unicode case: exact on texts of ASCII characters, other texts are left uncovered"""
    def f(x, st, fn, s, a, w):
        if const(s): return mk(x, txt(x, s).lower() if kind == "lower" else txt(x, s).upper())
        out = []
        for s2, b in x.branch(st, all_ascii(x, s)):
            if b: out.append((s2, ascii_case(kind)(x, s2, fn, s, a, w)))
            else: x.unsupported.append((s2.pc, "letter case of characters beyond ASCII", f"{w}"))
        return out
    return f
def all_ascii(x, s):
    def one(s):
        if const(s): return s.t.isascii()
        b = as_bs(x, s)
        return nameb(x, Not(first(b, Pat(lambda B, k: z3.UGE(B.b[k], 128) if k < B.N and is_z(B.b[k]) else k < B.N and B.b[k] >= 128, lambda B, k: 1))[0]))
    return map1(s, one)
over(SP + "is_ascii")(lambda x, st, fn, s, a, w: all_ascii(x, s))
for q in (SP, STRM):
    over(q + "to_ascii_lowercase")(ascii_case("lower")); over(q + "to_ascii_uppercase")(ascii_case("upper"))
    over(q + "to_lowercase")(uni_case("lower")); over(q + "to_uppercase")(uni_case("upper"))
@over(SP + "eq_ignore_ascii_case")
def _eqi(x, st, fn, s, a, w):
    t = S(x, st, a[1])
    def low(s): return ascii_case("lower")(x, st, fn, s, a, w)
    def one(s, t):
        if isinstance(s, Ite): return ite(s.g, one(s.a, t), one(s.b, t))
        if isinstance(t, Ite): return ite(t.g, one(s, t.a), one(s, t.b))
        if not x.bytes_mode and not (const(s) and const(t)):
            if const(t): s, t = t, s
            if not const(s): raise Unsupported("comparison without case")
            r = [strs.re_lit(c) if not (c.isascii() and c.isalpha()) else z3.Union(strs.re_lit(c.lower()), strs.re_lit(c.upper())) for c in s.t]
            return z3.InRe(intr.cterm(x, t), strs.re_cat(r) if len(r) > 1 else r[0] if r else strs.re_lit(""))
        return intr.seq(x, low(s), low(t))
    return one(s, t)
def char_case(kind):
    r, d = (UPR, 32) if kind == "lower" else (LWR, -32)
    def h(x, st, fn, a, w): return flip(x.deref_all(st, a[0]), r, d)
    return h
for p in ("std::char::methods::<impl char>::", "core::num::<impl u8>::"):
    I[p + "to_ascii_lowercase"] = char_case("lower"); I[p + "to_ascii_uppercase"] = char_case("upper")
    I[p + "eq_ignore_ascii_case"] = lambda x, st, fn, a, w: Eq(flip(x.deref_all(st, a[0]), UPR, 32), flip(x.deref_all(st, a[1]), UPR, 32))

# ------------------------------------------------------------------ characters
def table(n):
    import uni
    return getattr(uni, n)
def ucls(n):
    def h(x, st, fn, a, w):
        c = x.deref_all(st, a[0]); T = table(n)
        if not is_z(c): return any(p <= c <= q for p, q in T)
        if not is_bv(c): return Or(*[And(c >= p, c <= q) for p, q in T])
        return Or(*[z3.And(z3.UGE(c, p), z3.ULE(c, q)) if p != q else c == p for p, q in T])
    return h
for n in ("alphabetic", "numeric", "alphanumeric", "uppercase", "lowercase", "control"): I["std::char::methods::<impl char>::is_" + n] = ucls(n)
def ascii_cls(n, *iv):
    for p in ("std::char::methods::<impl char>::", "core::num::<impl u8>::"): I[p + n] = bstr.cls(*iv)
ascii_cls("is_ascii_hexdigit", (48, 57), (65, 70), (97, 102)); ascii_cls("is_ascii_control", (0, 31), (127, 127)); ascii_cls("is_ascii_graphic", (33, 126))
@reg("std::char::methods::<impl char>::len_utf8")
def _len_utf8(x, st, fn, a, w):
    c = x.deref_all(st, a[0])
    if not is_z(c): return len(chr(c).encode())
    if is_bv(c): return z3.If(z3.ULT(c, 0x80), P(1), z3.If(z3.ULT(c, 0x800), P(2), z3.If(z3.ULT(c, 0x10000), P(3), P(4))))
    return z3.If(c < 0x80, 1, z3.If(c < 0x800, 2, z3.If(c < 0x10000, 3, 4)))
def utf8_bytes(c):
    """[(guard, byte)] of a character"""
    if not is_z(c): return [(True, v) for v in chr(c).encode()]
    e = lambda v: z3.Extract(7, 0, v)
    l1, l2, l3 = z3.ULT(c, 0x80), z3.ULT(c, 0x800), z3.ULT(c, 0x10000)
    b0 = z3.If(l1, e(c), z3.If(l2, e(z3.LShR(c, 6)) | 0xC0, z3.If(l3, e(z3.LShR(c, 12)) | 0xE0, e(z3.LShR(c, 18)) | 0xF0)))
    lo = lambda n: (e(z3.LShR(c, n)) & 0x3F) | 0x80
    b1 = z3.If(l2, lo(0), z3.If(l3, lo(6), lo(12)))
    b2 = z3.If(l3, lo(0), lo(6))
    return [(True, b0), (z3.Not(l1), b1), (z3.Not(l2), b2), (z3.Not(l3), lo(0))]
def chr_str(x, c):
    if not is_z(c): return mk(x, chr(c))
    k = ("chr", c.get_id())
    if k not in x.memo:
        bs = utf8_bytes(c)
        B = Base.derived(x, [v if g is True else z3.If(g, v, z3.BitVecVal(0, 8)) for g, v in bs])
        B.n = name(x, True, z3.If(z3.ULT(c, 0x80), P(1), z3.If(z3.ULT(c, 0x800), P(2), z3.If(z3.ULT(c, 0x10000), P(3), P(4)))))
        x.memo[k] = (Str(BS(B, 0, B.n)), c)
    return x.memo[k][0]
_cs = intr.char_str
intr.char_str = lambda x, v: chr_str(x, v) if x.memo.get("bstr") else _cs(x, v)
def dec_str(x, v):
    """decimal text of a small non-negative number"""
    k = ("dec", v.get_id())
    if k not in x.memo:
        W = max(v.size(), 8); n = {8: 3, 12: 4, 16: 5, 32: 10}.get(W, 4)
        ds = []; q = v
        for _ in range(n):
            ds.append(z3.Extract(7, 0, z3.URem(q, z3.BitVecVal(10, W))) + 48 if W > 8 else z3.URem(q, z3.BitVecVal(10, 8)) + 48)
            q = z3.UDiv(q, z3.BitVecVal(10, W))
        ds = [nm(x, d, 8) for d in reversed(ds)]
        ln = P(1)
        for i in range(2, n + 1): ln = z3.If(z3.UGE(v, 10 ** (i - 1)), P(i), ln)
        ln = name(x, True, ln)
        # left-aligned: digit j is ds[n - ln + j]
        out = []
        for j in range(n):
            t = z3.BitVecVal(0, 8)
            for L in range(j + 1, n + 1): t = z3.If(ln == L, ds[n - L + j], t)
            out.append(t)
        B = Base.derived(x, out); B.n = ln
        x.memo[k] = (Str(BS(B, 0, ln)), v)
    return x.memo[k][0]
_tsi = intr.to_str_int
intr.to_str_int = lambda x, v: dec_str(x, v) if is_bv(v) else _tsi(x, v)
_disp = intr.display
def display(x, st, v, fn, w, kind="display"):
    if kind == "debug":
        u = x.deref_all(st, v)
        if isinstance(u, bool) or (is_z(u) and z3.is_bool(u)): return ite(u, Str("true"), Str("false"))
        if isinstance(u, int) or is_z(u):
            t = fn.prog.types[fn.targs[-1]] if fn.targs else ("int",)
            while t[0] == "ref": t = fn.prog.types[t[1]]
            if t[0] == "int": return intr.to_str_int(x, u)
    return _disp(x, st, v, fn, w, kind)
intr.display = display

# ------------------------------------------------------------------ whole numbers
def unsigned(fn):
    p = fn.path
    return "<impl u" in p
def width_of(fn):
    n = fn.path.split("<impl ")[1].split(">")[0]
    return (64 if n.endswith("size") else int(n[1:])), n[0] == "i"
def lift(f):
    def h(x, st, fn, a, w):
        a = [x.deref_all(st, v) for v in a]
        def go(a):
            for i, v in enumerate(a):
                if isinstance(v, Ite): return ite(v.g, go(a[:i] + [v.a] + a[i + 1:]), go(a[:i] + [v.b] + a[i + 1:]))
            return f(x, st, fn, a)
        return go(a)
    return h
def le(a, b):
    if is_bv(a) or is_bv(b):
        w = a.size() if is_bv(a) else b.size()
        if isinstance(a, int) and a >= (1 << w): return False
        if isinstance(b, int) and b >= (1 << w): return True
        return z3.ULE(tobv(a, w), tobv(b, w))
    return a <= b
def minus(a, b):
    if is_bv(a) or is_bv(b):
        w = a.size() if is_bv(a) else b.size()
        if w == bstr.PW: return psub(a, b)
        return tobv(a, w) - tobv(b, w)
    return a - b
def plus(a, b):
    if is_bv(a) or is_bv(b):
        w = a.size() if is_bv(a) else b.size()
        if w == bstr.PW: return padd(a, b)
        return tobv(a, w) + tobv(b, w)
    return a + b
def big(v, a):      # the other operand exceeds the width of a position
    return is_bv(a) and isinstance(v, int) and v >= (1 << a.size())
def num(n):
    def d(f):
        for t in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize"): I[f"core::num::<impl {t}>::{n}"] = lift(f)
        return f
    return d
def exact(fn, a):
    bits, sg = width_of(fn)
    if sg and any(is_bv(v) for v in a): raise Unsupported("signed arithmetic")
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    return lo, hi, bits
@num("saturating_sub")
def _ssub(x, st, fn, a):
    lo, hi, _ = exact(fn, a)
    if lo == 0:
        if big(a[1], a[0]): return 0
        return ite(le(a[1], a[0]), minus(a[0], a[1]), 0)
    v = a[0] - a[1]
    return ite(v < lo, lo, ite(v > hi, hi, v))
@num("saturating_add")
def _sadd(x, st, fn, a):
    lo, hi, bits = exact(fn, a)
    if any(is_bv(v) for v in a):
        if bits in (8, 16, 32): 
            r = plus(*a); return ite(le(a[0], r), r, hi)
        if any(isinstance(v, int) and v >= 2048 for v in a): raise Unsupported("large position")
        return plus(*a)
    v = a[0] + a[1]
    return ite(v > hi, hi, ite(v < lo, lo, v))
@num("checked_sub")
def _csub(x, st, fn, a):
    lo, hi, _ = exact(fn, a)
    if lo == 0:
        if big(a[1], a[0]): return NONE()
        return opt(st, le(a[1], a[0]), minus(a[0], a[1]))
    v = a[0] - a[1]
    return opt(st, And(v >= lo, v <= hi), v)
@num("checked_add")
def _cadd(x, st, fn, a):
    lo, hi, bits = exact(fn, a)
    if any(is_bv(v) for v in a):
        if bits in (8, 16, 32): r = plus(*a); return opt(st, le(a[0], r), r)
        if any(isinstance(v, int) and v >= 2048 for v in a): raise Unsupported("large position")
        return SOME(plus(*a))
    v = a[0] + a[1]
    return opt(st, And(v >= lo, v <= hi), v)
@num("wrapping_sub")
def _wsub(x, st, fn, a):
    lo, hi, bits = exact(fn, a)
    if any(is_bv(v) for v in a):
        if bits in (8, 16, 32): return minus(*a)
        raise Unsupported("wrapping difference of positions")
    return x.wrap(a[0] - a[1], bits, lo < 0)
@num("wrapping_add")
def _wadd(x, st, fn, a):
    lo, hi, bits = exact(fn, a)
    if any(is_bv(v) for v in a): return plus(*a)
    return x.wrap(a[0] + a[1], bits, lo < 0)
@num("abs_diff")
def _adiff(x, st, fn, a):
    exact(fn, a)
    if big(a[1], a[0]) or big(a[0], a[1]): raise Unsupported("large position")
    return ite(le(a[1], a[0]), minus(a[0], a[1]), minus(a[1], a[0]))
@num("is_power_of_two")
def _pow2(x, st, fn, a):
    if is_z(a[0]): raise Unsupported("power of two")
    return a[0] > 0 and a[0] & (a[0] - 1) == 0
def _minmax(mn):
    def f(x, st, fn, a):
        if big(a[1], a[0]): return a[0] if mn else a[1]
        if big(a[0], a[1]): return a[1] if mn else a[0]
        return ite(le(a[0], a[1]), a[0 if mn else 1], a[1 if mn else 0])
    return lift(f)
I["std::intrinsics::integer_min"] = _minmax(True); I["std::intrinsics::integer_max"] = _minmax(False)

# ------------------------------------------------------------------ slices: arrays, lists and bytes
def entries(v):
    if isinstance(v, Arr): return [(True, e) for e in v.f]
    if isinstance(v, Vec): return list(v.e)
    raise Unsupported(f"elements of {type(v).__name__}")
def veq(x, st, a, b):
    a, b = x.deref_all(st, a), x.deref_all(st, b)
    if isinstance(a, Ite): return ite(a.g, veq(x, st, a.a, b), veq(x, st, a.b, b))
    if isinstance(b, Ite): return ite(b.g, veq(x, st, a, b.a), veq(x, st, a, b.b))
    if isinstance(a, Str) or isinstance(b, Str): return intr.seq(x, S(x, st, a), S(x, st, b))
    if not isinstance(a, V) and not isinstance(b, V): return Eq(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup): return And(*[veq(x, st, p, q) for p, q in zip(a.f, b.f)])
    if isinstance(a, Adt) and isinstance(b, Adt) and fieldless(a) and fieldless(b): return a.v == b.v
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
def fieldless(a): return not a.f
def bytestr(x, st, v):
    """Str of a sequence of bytes: as_bytes() or a byte literal"""
    v = x.deref_all(st, v)
    if isinstance(v, Opq) and v.tag == "bytes": return v.args[0]
    if isinstance(v, Ite):
        a, b = bytestr(x, st, v.a), bytestr(x, st, v.b)
        return None if a is None or b is None else ite(v.g, a, b)
    if isinstance(v, Arr) and all(isinstance(e, int) and not isinstance(e, bool) and 0 <= e < 256 for e in v.f) and x.bytes_mode: return Str("".join(map(chr, v.f)))
    return None
def decline(path):
    """a contract tried before the one in place (or the body)"""
    def d(f):
        old = I.get(path)
        def h(x, st, fn, a, w):
            r = f(x, st, fn, a, w)
            if r is NotImplemented: return old(x, st, fn, a, w) if old is not None else NotImplemented
            return r
        I[path] = h
        return f
    return d
SL = "core::slice::<impl [T]>::"
def isbytes(x, st, v):
    v = x.deref_all(st, v)
    while isinstance(v, Ite): v = v.a
    return isinstance(v, Opq) and v.tag == "bytes"
def byte_pat(v): return Pat(lambda B, k: B.is_(k, v) if not is_z(v) else (Eq(B.b[k], v) if k < B.N else False), lambda B, k: 1)
@decline(SL + "contains")
def _scontains(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    if isinstance(v, Ite):
        return ite(v.g, _scontains(x, st, fn, [v.a, a[1]], w), _scontains(x, st, fn, [v.b, a[1]], w))
    if isbytes(x, st, v):
        c = x.deref_all(st, a[1])
        return map1(bytestr(x, st, v), lambda s: nameb(x, first(as_bs(x, s), byte_pat(c))[0]))
    return Or(*[And(g, veq(x, st, e, a[1])) for g, e in entries(v)])
def b_pat(x, st, v, w):
    s = bytestr(x, st, v)
    if s is None: raise Unsupported("byte pattern")
    if const(s): return lit_pat(s.t)
    return bstr.sym_pat(x, as_bs(x, s))
def seq_starts(front):
    def h(x, st, fn, a, w):
        v = x.deref_all(st, a[0])
        if isbytes(x, st, v):
            p = b_pat(x, st, a[1], w)
            return map1(bytestr(x, st, v), lambda s: nameb(x, (starts if front else ends)(as_bs(x, s), p)))
        o = x.deref_all(st, a[1])
        if isinstance(v, Arr) and isinstance(o, Arr):
            if len(o.f) > len(v.f): return False
            q = v.f[:len(o.f)] if front else v.f[len(v.f) - len(o.f):]
            return And(*[veq(x, st, p, r) for p, r in zip(q, o.f)])
        return NotImplemented
    return h
decline(SL + "starts_with")(seq_starts(True)); decline(SL + "ends_with")(seq_starts(False))
def seq_strip(front):
    def h(x, st, fn, a, w):
        if not isbytes(x, st, a[0]): return NotImplemented
        p = b_pat(x, st, a[1], w)
        r = bstr.strip_(x, st, bytestr(x, st, a[0]), p, front)
        return wrap_bytes(r)
    return h
def wrap_bytes(r):
    if isinstance(r, Ite): return Ite(r.g, wrap_bytes(r.a), wrap_bytes(r.b))
    if isinstance(r, Adt): return Adt(r.ty, r.v, [Opq("bytes", v) for v in r.f])
    return Sum(r.ty, r.d, {k: tuple(Opq("bytes", v) for v in f) for k, f in r.alts.items()})
decline(SL + "strip_prefix")(seq_strip(True)); decline(SL + "strip_suffix")(seq_strip(False))
for q in (SL + "to_vec", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "<[T] as std::borrow::ToOwned>::to_owned", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned"):
    @decline(q)
    def _to_vec(x, st, fn, a, w):
        v = x.deref_all(st, a[0])
        if isinstance(v, Arr): return Vec([(True, e) for e in v.f], True)
        return v
for q in ("core::slice::<impl [T]>::iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a [T] as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter"):
    @decline(q)
    def _iter(x, st, fn, a, w):
        if isbytes(x, st, a[0]): return map1(bytestr(x, st, a[0]), lambda s: ChIt(s, "refs", as_bs(x, s).lo))
        return NotImplemented
@decline("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _into(x, st, fn, a, w):
    if isinstance(a[0], Opq) and a[0].tag == "bytes": return map1(a[0].args[0], lambda s: ChIt(s, "bytes", as_bs(x, s).lo))
    return NotImplemented
I["std::intrinsics::cold_path"] = lambda x, st, fn, a, w: UNIT
def slice_index(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    if isinstance(a[1], int) or is_z(a[1]):
        if isinstance(v, Vec) and isinstance(a[0], Ref):
            ok = lambda i: len(v.e) > i and (v.e[i][0] if v.mono or all(g is True for g, _ in v.e) else None)
            if not is_z(a[1]):
                g = ok(a[1])
                if g is None: return NotImplemented
                out = []
                for s2, b in x.branch(st, g):
                    if b: out.append((s2, Ref(a[0].cell, a[0].path + (("i", a[1]),))))
                    else: x.panic(s2, "index out of bounds", *w)
                return out
        if isbytes(x, st, v):
            s = bytestr(x, st, v); out = []
            def one(s): b = as_bs(x, s); return Tup((plt(padd(b.lo, a[1]), b.hi), b.byte(a[1])))
            ok, v = map1(s, one).f
            for s2, b in x.branch(st, ok):
                if b: out.append((s2, x.alloc(s2, v)))
                else: x.panic(s2, "index out of bounds", *w)
            return out
        return NotImplemented
    if isbytes(x, st, v):
        s = bytestr(x, st, v)
        def one(s):
            b = as_bs(x, s)
            i, j = bstr.rng(x, st, a[1], b, fn.prog, index_ty(x, fn))
            lo = padd(b.lo, i); hi = b.hi if j is None else padd(b.lo, j)
            return Tup((nameb(x, And(ple(lo, hi), ple(hi, b.hi))), sub(b, lo, hi)))
        ok, r = map1(s, one).f
        out = []
        for s2, b in x.branch(st, ok):
            if b: out.append((s2, Opq("bytes", r)))
            else: x.panic(s2, "slice index out of range", *w)
        return out
    if isinstance(v, (Arr, Vec)):
        i, j = bstr.rng(x, st, a[1], None, fn.prog, index_ty(x, fn))
        es = entries(v); n = x.length(st, v)
        if is_z(i) or is_z(j) or not (isinstance(v, Arr) or all(g is True for g, _ in es) or v.mono): return NotImplemented
        ok = And(i <= (j if j is not None else n), (j <= n) if j is not None else True)
        out = []
        for s2, b in x.branch(st, ok):
            if not b: x.panic(s2, "slice index out of range", *w); continue
            e2 = es[i:] if j is None else es[i:j]
            out.append((s2, x.alloc(s2, Arr([e for _, e in e2]) if all(g is True for g, _ in e2) or j is not None else Vec(e2, getattr(v, "mono", True)))))
        return out
    return NotImplemented
for q in ("core::slice::index::<impl std::ops::Index<I> for [T]>::index", "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::Index<I> for [T; N]>::index"):
    decline(q)(slice_index)
@decline(SL + "get")
def _sget(x, st, fn, a, w):
    if isinstance(a[1], V) and isbytes(x, st, a[0]):
        def one(s):
            b = as_bs(x, s)
            i, j = bstr.rng(x, st, a[1], b, fn.prog, index_ty(x, fn))
            lo = padd(b.lo, i); hi = b.hi if j is None else padd(b.lo, j)
            return opt(st, nameb(x, And(ple(lo, hi), ple(hi, b.hi))), Opq("bytes", sub(b, lo, hi)))
        return map1(bytestr(x, st, a[0]), one)
    return NotImplemented
def valid(x, b):
    """the window begins and ends between characters"""
    B = b.base
    return nameb(x, And(True if same(b.lo, 0) else B.boundary(b.lo), True if same(b.hi, B.n) else B.boundary(b.hi)))
for q in ("std::string::String::from_utf8", "core::str::from_utf8", "std::str::from_utf8", "core::str::converts::from_utf8"):
    @reg(q)
    def _from_utf8(x, st, fn, a, w):
        s = bytestr(x, st, a[0])
        if s is None: raise Unsupported("text of other bytes")
        def one(s):
            if const(s):
                try: s.t.encode("latin-1").decode(); return OK(s)
                except UnicodeDecodeError: return ERR(Opq("Utf8Error"))
            b = as_bs(x, s)
            ok = valid(x, b)
            if ok is True: return OK(s)
            return Sum(None, z3.If(ok, z3.IntVal(0), z3.IntVal(1)), {0: (s,), 1: (Opq("Utf8Error"),)})
        return map1(s, one)
@reg("std::string::String::from_utf8_lossy")
def _lossy(x, st, fn, a, w):
    s = bytestr(x, st, a[0])
    if s is None: raise Unsupported("text of other bytes")
    out = []
    def okc(s):
        return valid(x, as_bs(x, s))
    for s2, b in x.branch(st, map1(s, okc)):
        if b: out.append((s2, Adt(None, 0, (s,))))
        else: x.unsupported.append((s2.pc, "replacement of broken UTF-8", f"{w}"))
    return out
reg("std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked", "std::string::String::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked")(lambda x, st, fn, a, w: bytestr(x, st, a[0]))
for q in ("std::string::<impl std::convert::From<&str> for std::borrow::Cow<'_, str>>::from", "std::string::<impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from"):
    I[q] = lambda x, st, fn, a, w: Adt(None, 0, (S(x, st, a[0]),))
I["std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'_, str>>::from"] = lambda x, st, fn, a, w: Adt(None, 1, (S(x, st, a[0]),))
I["std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from"] = I["std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'_, str>>::from"]

# ------------------------------------------------------------------ order of texts
def bcmp(x, s, t):
    """-1, 0, 1 as conditions (less, equal)"""
    if const(s) and const(t): return s.t < t.t, s.t == t.t
    a, b = as_bs(x, s), as_bs(x, t)
    n = min(a.base.N, b.base.N)
    if n > 64: raise Unsupported("order of long texts")
    la, lb = a.blen(), b.blen()
    less, eq = plt(la, lb), peq(la, lb)      # when one is a prefix of the other
    for i in reversed(range(n)):
        p, q = a.byte(i), b.byte(i)
        both = And(plt(i, la), plt(i, lb))
        lt = z3.ULT(tobv(p, 8), tobv(q, 8)) if is_z(p) or is_z(q) else p < q
        e = Eq(p, q)
        less = nameb(x, ite(both, Or(lt, And(e, less)), plt(la, lb))); eq = nameb(x, ite(both, And(e, eq), peq(la, lb)))
    return less, eq
def ordering(less, eq): return Sum(None, ite(less, -1, ite(eq, 0, 1)), {-1: (), 0: (), 1: ()})
def _str_cmp(part):
    def h(x, st, fn, a, w):
        def go(s, t):
            if isinstance(s, Ite): return ite(s.g, go(s.a, t), go(s.b, t))
            if isinstance(t, Ite): return ite(t.g, go(s, t.a), go(s, t.b))
            l, e = bcmp(x, s, t)
            o = ordering(l, e)
            if not is_z(o.d): o = Adt(o.ty, o.d, ())
            return SOME(o) if part else o
        return go(S(x, st, a[0]), S(x, st, a[1]))
    return h
for t in ("core::str::traits::<impl std::cmp::Ord for str>::cmp", "<std::string::String as std::cmp::Ord>::cmp"): I[t] = _str_cmp(False)
for t in ("core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp", "<std::string::String as std::cmp::PartialOrd>::partial_cmp"): I[t] = _str_cmp(True)

# ------------------------------------------------------------------ building texts
def guarded(x, g, s):
    """s when g, otherwise the empty text"""
    if g is True: return s
    if g is False: return Str("")
    def one(s):
        b = as_bs(x, s)
        hi = pite(g, b.hi, b.lo)
        return Str(BS(b.base, b.lo, name(x, True, hi) if is_z(hi) else hi))
    return map1(s, one)
def strv(x, st, v):
    """text of an element: text or character"""
    v = x.deref_all(st, v)
    if isinstance(v, int) or is_z(v): return chr_str(x, v)
    return S(x, st, v)
def joined(x, st, es, sep):
    if any(g is not True for g, _ in es) and not x.memo.get("bstr"): raise Unsupported("concatenation of a guarded list")
    parts = []; before = False
    for g, e in es:
        if sep is not None and parts: parts.append(guarded(x, And(g, before), sep))
        parts.append(guarded(x, g, strv(x, st, e)))
        before = Or(before, g)
    return concat(x, st, parts) if parts else Str("")
def _concat(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    def one(v):
        es = entries(v)
        if es and isinstance(x.deref_all(st, es[0][1]), (Vec, Arr)): raise Unsupported("concatenation of lists")
        return joined(x, st, es, None)
    return map1(v, one)
def _join(x, st, fn, a, w):
    v = x.deref_all(st, a[0]); sep = strv(x, st, a[1])
    return map1(v, lambda v: joined(x, st, entries(v), sep))
for q in ("std::slice::<impl [T]>::", "core::slice::<impl [T]>::"):
    I[q + "concat"] = _concat; I[q + "join"] = _join
I["<std::string::String as std::ops::Add<&str>>::add"] = lambda x, st, fn, a, w: concat(x, st, [S(x, st, a[0]), S(x, st, a[1])])
def upd(f):
    def h(x, st, fn, a, w):
        r = f(x, st, fn, S(x, st, a[0]), a, w)
        x.store(st, a[0], r)
        return UNIT
    return h
I["<std::string::String as std::ops::AddAssign<&str>>::add_assign"] = upd(lambda x, st, fn, s, a, w: concat(x, st, [s, S(x, st, a[1])]))
I["std::string::String::push"] = upd(lambda x, st, fn, s, a, w: concat(x, st, [s, intr.char_str(x, a[1])]))
I["std::string::String::push_str"] = upd(lambda x, st, fn, s, a, w: concat(x, st, [s, S(x, st, a[1])]))
I["std::string::String::clear"] = upd(lambda x, st, fn, s, a, w: Str(""))
for q in ("reserve", "reserve_exact", "shrink_to_fit"): I["std::string::String::" + q] = lambda x, st, fn, a, w: UNIT
def insert(x, st, fn, s, a, w):
    t = strv(x, st, a[2])
    if not is_z(a[1]) and a[1] == 0: return concat(x, st, [t, s])
    def one(s):
        b = as_bs(x, s); p = padd(b.lo, a[1])
        ok = nameb(x, And(ple(p, b.hi), b.base.boundary(p)))
        if ok is not True: x.panic_if(st, Not(ok), "insert position", w)
        return concat(x, st, [sub(b, b.lo, p), t, sub(b, p, b.hi)])
    return map1(s, one)
I["std::string::String::insert"] = I["std::string::String::insert_str"] = upd(insert)
def truncate(x, st, fn, s, a, w):
    def one(s):
        b = as_bs(x, s)
        if isinstance(a[1], int) and a[1] > b.base.N: return s
        p = padd(b.lo, a[1])
        ok = nameb(x, Or(ple(b.hi, p), b.base.boundary(p)))
        if ok is not True: x.panic_if(st, Not(ok), "truncate inside a character", w)
        hi = pite(ple(b.hi, p), b.hi, p)
        return sub(b, b.lo, hi)
    return map1(s, one)
I["std::string::String::truncate"] = upd(truncate)
@reg("std::string::String::pop")
def _pop(x, st, fn, a, w):
    def one(s):
        it = ChIt(s, "chars", 0)
        r, n = it_step(x, st, it, True)
        def str_of(n): return n.s if isinstance(n, ChIt) else ite(n.g, str_of(n.a), str_of(n.b))
        return Tup((r, str_of(n)))
    r = map1(S(x, st, a[0]), one)
    x.store(st, a[0], r.f[1]); return r.f[0]
@reg("std::str::<impl str>::repeat")
def _repeat(x, st, fn, a, w):
    if is_z(a[1]): raise Unsupported("repeat of a symbolic count")
    s = S(x, st, a[0])
    if a[1] > 64 and not const(s): raise Unsupported("long repeat")
    return Str(s.t * a[1]) if const(s) else concat(x, st, [s] * a[1]) if a[1] else Str("")
def panic_if(x, st, c, msg, w):
    if c is False: return
    s2 = st.copy(); s2.pc = s2.pc + ((c,) if is_z(c) else ())
    x.panic(s2, msg, *w)
    if is_z(c): st.pc = st.pc + (Not(c),)
import sym
sym.X.panic_if = panic_if

# ------------------------------------------------------------------ iterators over characters, closed forms
def pure_pred(x, st, f, w, kind, byref):
    """the closure as a pattern over the text, when it only looks at the item; otherwise None"""
    if kind == "char_indices" or not isinstance(x.deref_all(st, f), (Clo, Opq)): return None
    bits = 32 if kind == "chars" else 8
    c = z3.BitVec(f"ch!{x.nfresh}", bits); x.nfresh += 1
    s2 = st.copy(); arg = c
    if kind == "refs": arg = x.alloc(s2, c)
    if byref: arg = x.alloc(s2, arg)
    before = dict(s2.mem)
    np, nu = len(x.panics), len(x.unsupported)
    try: r = x.call_value(s2, f, [arg], w)
    except Unsupported: r = []
    ok = len(r) == 1 and len(x.panics) == np and len(x.unsupported) == nu
    if ok: ok = all(r[0][0].mem.get(k) is v or same(r[0][0].mem.get(k), v) for k, v in before.items())
    if not ok:
        del x.panics[np:]; del x.unsupported[nu:]
        return None
    t = r[0][1]
    if isinstance(t, V): return None
    if kind == "chars": return bstr.pred_pat(c, t)
    memo = {}
    def cond(B, k):
        if k >= B.N: return False
        q = memo.get((id(B), k))
        if q is None: q = memo[id(B), k] = t if not is_z(t) else bstr.fold(z3.simplify(z3.substitute(t, (c, tobv(B.b[k], 8)))))
        return q
    return Pat(cond, lambda B, k: 1)
def starts_at(it, b, k):
    """an item of the iterator starts at k"""
    if k >= b.base.N: return False
    g = And(ple(b.lo, k), plt(k, b.hi))
    return g if it.kind in ("bytes", "refs") else And(g, Not(b.base.cont(k)))
def neg(p): return Pat(lambda B, k: Not(p.cond(B, k)) if k < B.N else False, p.width)
def items(it, b, p):
    """[(k, condition)]: an item that starts at k and satisfies p"""
    out = []
    if it.k >= b.base.N: return out
    for k in span(b):
        c = starts_at(it, b, k)
        if c is False: continue
        c = And(c, p.cond(b.base, k)) if p is not None else c
        if c is not False: out.append((k, c))
    return out
def total(x, cs):
    """how many of the conditions hold"""
    n = 0; ts = []
    for c in cs:
        if c is True: n += 1
        elif c is not False: ts.append(c)
    if not ts: return n
    k = ("total", tuple(c.get_id() for c in ts), n)
    if k not in x.memo:
        L = [z3.If(c, P(1), P(0)) for c in ts]
        while len(L) > 1: L = [L[i] + L[i + 1] if i + 1 < len(L) else L[i] for i in range(0, len(L), 2)]
        x.memo[k] = (name(x, True, padd(L[0], n) if n else L[0]), ts)
    return x.memo[k][0]
def chits(x, st, v):
    """the iterator behind a value or a reference; None when it is of another kind"""
    u = x.load(st, v) if isinstance(v, Ref) else v
    def ok(u): return ok(u.a) and ok(u.b) if isinstance(u, Ite) else isinstance(u, ChIt) or (isinstance(u, Opq) and u.tag == "chars" and x.memo.get("bstr"))
    return u if ok(u) else None
def as_it(x, u): return ChIt(u.args[0], "chars", 0) if isinstance(u, Opq) else u
def put(x, st, v, u):
    if isinstance(v, Ref): x.store(st, v, u)
def on(names, f, byref):
    """closed form of a searching method: f(x, st, it, b, pattern) -> (answer, rest of the iterator)"""
    def h(x, st, fn, a, w):
        u = chits(x, st, a[0])
        if u is None: return NotImplemented
        def one(u):
            if isinstance(u, Ite):
                p, q = one(u.a), one(u.b)
                if p is None or q is None: return None
                return ite(u.g, p[0], q[0]), ite(u.g, p[1], q[1])
            it = as_it(x, u)
            p = pure_pred(x, st, a[1], w, it.kind, byref)
            if p is None: return None
            return f(x, st, it, as_bs(x, it.s), p)
        r = one(u)
        if r is None: return loop_form(x, st, fn, a, w)
        put(x, st, a[0], r[1])
        return r[0]
    for n in names: decline(n)(h)
def rest_from(x, it, b, lo): return ChIt(sub(b, name(x, True, lo) if is_z(lo) else lo, b.hi), it.kind, it.orig, it.k + 1)
def search(x, it, b, p, back=False):
    f, pos = False, 0
    its = items(it, b, p)
    for k, c in (its if back else reversed(its)):
        f = Or(c, f); pos = pite(c, k, pos)
    return nameb(x, f), name(x, True, pos)
def width_at(x, it, b, pos):
    if it.kind in ("bytes", "refs"): return 1
    if not is_z(pos): return b.base.width(pos)
    r = P(1)
    for k in span(b):
        if k < b.base.N: r = z3.If(pos == k, P(b.base.width(k)), r)
    return name(x, True, r)
def value_at(x, st, it, b, pos):
    if it.kind in ("bytes", "refs"):
        v = BS(b.base, 0, b.hi).byte(pos); v = nm(x, v, 8) if is_z(v) else v
        return x.alloc(st, v) if it.kind == "refs" else v
    v = bstr.char_at(x, b, pos)[0]
    return Tup((psub(pos, it.orig), v)) if it.kind == "char_indices" else v
def after(x, it, b, f, pos):
    return rest_from(x, it, b, pite(f, padd(pos, width_at(x, it, b, pos)), b.hi))
def c_any(x, st, it, b, p):
    f, pos = search(x, it, b, p); return f, after(x, it, b, f, pos)
def c_all(x, st, it, b, p):
    f, pos = search(x, it, b, neg(p)); return Not(f), after(x, it, b, f, pos)
def c_find(x, st, it, b, p):
    f, pos = search(x, it, b, p)
    return (opt(st, f, value_at(x, st, it, b, pos)) if f is not False else NONE()), after(x, it, b, f, pos)
def c_pos(x, st, it, b, p):
    f, pos = search(x, it, b, p)
    if f is False: return NONE(), after(x, it, b, f, pos)
    i = psub(pos, b.lo) if it.kind in ("bytes", "refs") else total(x, [And(c, plt(k, pos)) for k, c in items(it, b, None)])
    return opt(st, f, i), after(x, it, b, f, pos)
def c_rfind(x, st, it, b, p):
    f, pos = search(x, it, b, p, True)
    hi = pite(f, pos, b.lo)
    return (opt(st, f, value_at(x, st, it, b, pos)) if f is not False else NONE()), ChIt(sub(b, b.lo, name(x, True, hi) if is_z(hi) else hi), it.kind, it.orig)
def c_rpos(x, st, it, b, p):
    if it.kind not in ("bytes", "refs"): return None
    f, pos = search(x, it, b, p, True)
    hi = pite(f, pos, b.lo)
    return (opt(st, f, psub(pos, b.lo)) if f is not False else NONE()), ChIt(sub(b, b.lo, name(x, True, hi) if is_z(hi) else hi), it.kind, it.orig)
IT = "std::iter::Iterator::"
BY = "<std::str::Bytes<'_> as std::iter::Iterator>::"
SLI = "<std::slice::Iter<'a, T> as std::iter::Iterator>::"
def nm_(m): return [IT + m, BY + m, SLI + m]
on(nm_("any"), c_any, False); on(nm_("all"), c_all, False); on(nm_("find"), c_find, True); on(nm_("position"), c_pos, False)
on(["std::iter::DoubleEndedIterator::rfind", "<std::str::Bytes<'_> as std::iter::DoubleEndedIterator>::rfind"], c_rfind, True)
on(nm_("rposition"), c_rpos, False)
def loop_form(x, st, fn, a, w):
    """no closed form: the body when there is one"""
    if fn.body and not fn.path.startswith(BY): return NotImplemented
    m = fn.path.split("::")[-1]
    u = chits(x, st, a[0])
    ref = a[0] if isinstance(a[0], Ref) else x.alloc(st, u)
    cnt = x.alloc(st, 0)
    def item(s, v):
        i = x.load(s, cnt); x.store(s, cnt, i + 1 if not is_z(i) else padd(i, 1))
        arg = x.alloc(s, v) if m in ("find",) else v
        for s2, b in intr.call_pred(x, s, a[1], [arg], w):
            done = b if m != "all" else not b
            yield s2, done, (b if m in ("any", "all") else SOME(v) if m == "find" else SOME(i))
    end = {"any": False, "all": True}.get(m)
    out, cur = [], st
    for _ in range(400):
        r = bstr.next_(False)(x, cur, fn, [ref], w)
        nxt = []
        for s2, o in ((s2, b) for s2, b in split_opt(x, cur, r)):
            if o is None: out.append((s2, end if end is not None else NONE())); continue
            for s3, d, v in item(s2, o):
                if d: out.append((s3, v))
                else: nxt.append(s3)
        if not nxt: return out
        cur = x.merge_states(nxt) if len(nxt) > 1 else nxt[0]
    raise Unsupported("long iteration")
def split_opt(x, st, o):
    """[(state, payload or None)] of an Option"""
    if isinstance(o, Lazy): o = x.expand(o)
    if isinstance(o, Ite):
        out = []
        for s2, b in x.branch(st, o.g):
            s2 = s2.copy() if s2 is st else s2
            out += split_opt(x, s2, o.a if b else o.b)
        return out
    if isinstance(o, Adt): return [(st, o.f[0] if o.v == 1 else None)]
    out = []
    for s2, b in x.branch(st, Eq(o.d, 1)):
        s2 = s2.copy() if s2 is st else s2
        out.append((s2, o.alts[1][0] if b else None))
    return out
def whole_it(names, f):
    """closed form of a method of the whole iterator (by value or reference)"""
    def h(x, st, fn, a, w):
        u = chits(x, st, a[0])
        if u is None: return NotImplemented
        def one(u):
            if isinstance(u, Ite): return ite(u.g, one(u.a), one(u.b))
            it = as_it(x, u)
            return f(x, st, it, as_bs(x, it.s), a)
        return one(u)
    for n in names: decline(n)(h)
def c_count(x, st, it, b, a):
    if it.kind in ("bytes", "refs"): return b.blen()
    return total(x, [c for _, c in items(it, b, None)])
whole_it([IT + "count", "<std::str::Chars<'a> as std::iter::Iterator>::count", "<std::str::CharIndices<'a> as std::iter::Iterator>::count", BY + "count",
          "std::iter::ExactSizeIterator::len", "<std::str::Bytes<'_> as std::iter::ExactSizeIterator>::len", SLI + "count"], c_count)
def c_last(x, st, it, b, a): return it_step(x, st, it, True)[0]
whole_it([IT + "last", "<std::str::Chars<'a> as std::iter::Iterator>::last", "<std::str::CharIndices<'a> as std::iter::Iterator>::last", BY + "last", SLI + "last"], c_last)
def nth_pos(x, it, b, n):
    """(there is an n-th item, its position)"""
    its = items(it, b, None); f, pos = False, 0
    if it.kind in ("bytes", "refs"):
        if isinstance(n, int) and n >= b.base.N: return False, 0
        p = padd(b.lo, n); return plt(p, b.hi), p
    if isinstance(n, int) and n >= b.base.N: return False, 0
    seen = 0
    for k, c in its:
        at = nameb(x, And(c, peq(seen, n) if is_z(seen) or is_z(n) else seen == n))
        f = Or(f, at); pos = pite(at, k, pos)
        nxt = pite(c, padd(seen, 1), seen)
        seen = name(x, True, nxt) if is_z(nxt) else nxt
    return nameb(x, f), name(x, True, pos)
def _nth(x, st, fn, a, w):
    u = chits(x, st, a[0])
    if u is None: return NotImplemented
    def one(u):
        if isinstance(u, Ite):
            p, q = one(u.a), one(u.b)
            return ite(u.g, p[0], q[0]), ite(u.g, p[1], q[1])
        it = as_it(x, u); b = as_bs(x, it.s)
        f, pos = nth_pos(x, it, b, pos_of(a[1]))
        if f is False: return NONE(), rest_from(x, it, b, b.hi)
        return opt(st, f, value_at(x, st, it, b, pos)), after(x, it, b, f, pos)
    r = one(u)
    put(x, st, a[0], r[1]); return r[0]
def pos_of(n):
    if is_z(n) and not is_bv(n): raise Unsupported("symbolic count")
    return n
for n in [IT + "nth", BY + "nth", SLI + "nth", "<std::str::Chars<'a> as std::iter::Iterator>::nth"]: decline(n)(_nth)
def _advance(x, st, fn, a, w):
    u = chits(x, st, a[0])
    if u is None: return NotImplemented
    n = pos_of(a[1])
    def one(u):
        if isinstance(u, Ite):
            p, q = one(u.a), one(u.b)
            return ite(u.g, p[0], q[0]), ite(u.g, p[1], q[1])
        it = as_it(x, u); b = as_bs(x, it.s)
        if not is_z(n) and n == 0: return OK(UNIT), it
        f, pos = nth_pos(x, it, b, n - 1 if not is_z(n) else psub(n, 1))
        if is_z(n): raise Unsupported("symbolic count")
        left = psub(n, c_count(x, st, it, b, a))
        if f is False: return ERR(left), rest_from(x, it, b, b.hi)
        return Sum(None, z3.If(f, z3.IntVal(0), z3.IntVal(1)), {0: (UNIT,), 1: (left,)}) if is_z(f) else OK(UNIT), after(x, it, b, f, pos)
    r = one(u)
    put(x, st, a[0], r[1]); return r[0]
for n in [IT + "advance_by", BY + "advance_by", "<std::str::Chars<'a> as std::iter::Iterator>::advance_by"]: decline(n)(_advance)
for n in [IT + "size_hint", BY + "size_hint", "<std::str::Chars<'a> as std::iter::Iterator>::size_hint"]:
    @decline(n)
    def _hint(x, st, fn, a, w): return Tup((0, NONE())) if chits(x, st, a[0]) is not None else NotImplemented
@decline("<std::iter::Filter<I, P> as std::iter::Iterator>::count")
def _fcount(x, st, fn, a, w):
    v = a[0]
    if not isinstance(v, Adt): return NotImplemented
    u = chits(x, st, v.f[0])
    if u is None or isinstance(u, Ite): return NotImplemented
    it = as_it(x, u); p = pure_pred(x, st, v.f[1], w, it.kind, True)
    if p is None: return NotImplemented
    return total(x, [c for _, c in items(it, as_bs(x, it.s), p)])
@reg("core::str::<impl str>::encode_utf16")
def _utf16(x, st, fn, a, w): return Opq("utf16", S(x, st, a[0]))
@decline("<std::str::EncodeUtf16<'a> as std::iter::Iterator>::count")
def _utf16c(x, st, fn, a, w):
    if not (isinstance(a[0], Opq) and a[0].tag == "utf16"): return NotImplemented
    def one(s):
        if const(s): return len(txt(x, s).encode("utf-16-le")) // 2
        b = as_bs(x, s); it = ChIt(s, "chars", 0)
        four = Pat(lambda B, k: (z3.UGE(B.b[k], 0xF0) if is_z(B.b[k]) else B.b[k] >= 0xF0) if k < B.N else False, lambda B, k: 4)
        return padd(c_count(x, st, it, b, a), total(x, [c for _, c in items(it, b, four)]))
    return map1(a[0].args[0], one)

# ------------------------------------------------------------------ splitting
WS_ASCII = bstr.char_set([9, 10, 12, 13, 32])
class SplitIt(V):
    """pieces of a text.  kind: split | term | incl | lines | ws | matches | indices; n: pieces left of splitn (None: no limit); k: pieces taken at least"""
    __slots__ = ("s", "p", "done", "kind", "n", "rev", "orig", "k")
    def __init__(self, s, p, done, kind="split", n=None, rev=False, orig=0, k=0):
        self.s, self.p, self.done, self.kind, self.n, self.rev, self.orig, self.k = s, p, done, kind, n, rev, orig, k
    def with_(self, s, done, n): return SplitIt(s, self.p, done, self.kind, n, self.rev, self.orig, self.k + 1)
    def __repr__(self): return "SplitIt"
    def like(self, o): return isinstance(o, SplitIt) and (self.p is o.p or self.p.key() == o.p.key()) and self.kind == o.kind and self.rev == o.rev and same(self.orig, o.orig)
    def vsame(self, o): return self.like(o) and same(self.s, o.s) and same(self.done, o.done) and same(self.n, o.n) and self.k == o.k
    def vmerge(self, g, o):
        if not self.like(o) or (self.n is None) != (o.n is None): return None
        s = ite(g, self.s, o.s)
        if not isinstance(s, Str): return None
        return SplitIt(s, self.p, ite(g, self.done, o.done), self.kind, ite(g, self.n, o.n) if self.n is not None else None, self.rev, self.orig, min(self.k, o.k))
Pat.key = lambda self: self.lit if self.lit is not None else id(self)
def mk_split(kind, rev=False, nth=False):
    def f(x, st, fn, s, a, w):
        n = a[1] if nth else None
        p = a[2] if nth else a[1] if len(a) > 1 else None
        pat = pattern(x, st, p, w) if p is not None else {"lines": lit_pat("\n"), "ws": WSP, "aws": WS_ASCII}[kind]
        if pat.lit == "": raise Unsupported("split at the empty text")
        kd = {"aws": "ws"}.get(kind, kind)
        if nth and is_z(n): raise Unsupported("symbolic number of pieces")
        return map1(s, lambda s: SplitIt(s, pat, False, kd, n, rev, as_bs(x, s).lo if kd == "indices" else 0))
    return f
for m, k in (("split", "split"), ("split_terminator", "term"), ("split_inclusive", "incl"), ("matches", "matches"), ("match_indices", "indices")): over(SP + m)(mk_split(k))
over(SP + "lines")(mk_split("lines")); over(SP + "split_whitespace")(mk_split("ws")); over(SP + "split_ascii_whitespace")(mk_split("aws"))
over(SP + "rsplit")(mk_split("split", True)); over(SP + "rmatches")(mk_split("matches", True)); over(SP + "rmatch_indices")(mk_split("indices", True))
over(SP + "splitn")(mk_split("split", False, True)); over(SP + "rsplitn")(mk_split("split", True, True))
def split_step(x, st, it, back=False):
    """(option, new iterator)"""
    if isinstance(it, Ite):
        (a, b), (c, d) = split_step(x, st, it.a, back), split_step(x, st, it.b, back)
        return ite(it.g, a, c), ite(it.g, b, d)
    if not isinstance(it, SplitIt): raise Unsupported("split iterator")
    b = as_bs(x, it.s)
    if it.k > b.base.N + 1 or it.done is True: return NONE(), it
    rev = it.rev != back
    n = it.n
    if n is not None and back: raise Unsupported("splitn from the back")
    if not is_z(n) and n == 0: return NONE(), it
    if it.kind == "ws":
        if rev: raise Unsupported("white space from the back")
        lo = bstr.trim_lo(x, b, it.p); b2 = BS(b.base, lo, b.hi)
        more = nameb(x, plt(lo, b.hi))
        f, pos = first(b2, it.p); f, pos = nameb(x, f), name(x, f, pos)
        hi = pite(f, pos, b.hi)
        piece, rest = sub(b, lo, hi), sub(b, name(x, True, hi) if is_z(hi) else hi, b.hi)
        return (opt(st, more, piece) if more is not False else NONE()), it.with_(rest, it.done, n)
    f, pos = (last if rev else first)(b, it.p)
    f, pos = nameb(x, f), name(x, f, pos)
    if f is False: wd = 0
    else: wd = wid(b, it.p, pos); wd = name(x, True, wd) if is_z(wd) else wd
    end = padd(pos, wd)
    if it.kind in ("matches", "indices"):
        piece = sub(b, pos, end)
        rest = sub(b, b.lo, pite(f, pos, b.lo)) if rev else sub(b, pite(f, end, b.hi), b.hi)
        v = Tup((psub(pos, it.orig), piece)) if it.kind == "indices" else piece
        return (opt(st, f, v) if f is not False else NONE()), it.with_(rest, it.done, n)
    if it.kind == "split":
        if n is not None: f = And(f, Not(Eq(n, 1))) if is_z(n) else (f if n != 1 else False)
        if rev: piece = sub(b, pite(f, end, b.lo), b.hi); rest = sub(b, b.lo, pite(f, pos, b.lo))
        else: piece = sub(b, b.lo, pite(f, pos, b.hi)); rest = sub(b, pite(f, end, b.hi), b.hi)
        more = nameb(x, Not(it.done))
        return opt(st, more, piece), it.with_(rest, nameb(x, Or(it.done, Not(f))), None if n is None else n - 1)
    if rev: raise Unsupported("pieces from the back")
    if it.kind == "term":
        more = nameb(x, And(Not(it.done), Or(f, plt(b.lo, b.hi))))
        piece = sub(b, b.lo, pite(f, pos, b.hi)); rest = sub(b, pite(f, end, b.hi), b.hi)
    else:
        more = nameb(x, And(Not(it.done), plt(b.lo, b.hi)))
        hi = pite(f, end, b.hi); hi = name(x, True, hi) if is_z(hi) else hi
        piece = sub(b, b.lo, hi); rest = sub(b, hi, b.hi)
        if it.kind == "lines":
            e = pite(f, pos, b.hi); e = name(x, True, e) if is_z(e) else e
            cr = nameb(x, And(f, ends(BS(b.base, b.lo, e), lit_pat("\r"))))
            e2 = pite(cr, psub(e, 1), e)
            piece = sub(b, b.lo, name(x, True, e2) if is_z(e2) else e2)
    return opt(st, more, piece), it.with_(rest, nameb(x, Or(it.done, Not(f))), n)
def split_next(back):
    def h(x, st, fn, a, w):
        r, n = split_step(x, st, x.load(st, a[0]), back)
        x.store(st, a[0], n)
        return r
    return h
for t in ("Split<'a, P>", "RSplit<'a, P>", "SplitN<'a, P>", "RSplitN<'a, P>", "SplitTerminator<'a, P>", "SplitInclusive<'a, P>", "Matches<'a, P>", "RMatches<'a, P>", "MatchIndices<'a, P>",
          "RMatchIndices<'a, P>", "Lines<'a>", "SplitWhitespace<'a>", "SplitAsciiWhitespace<'a>"):
    I[f"<std::str::{t} as std::iter::Iterator>::next"] = split_next(False)
    I[f"<std::str::{t} as std::iter::DoubleEndedIterator>::next_back"] = split_next(True)
def split_of(x, st, v):
    u = x.load(st, v) if isinstance(v, Ref) else v
    def ok(u): return ok(u.a) and ok(u.b) if isinstance(u, Ite) else isinstance(u, SplitIt)
    return u if ok(u) else None
SPLITS = [f"<std::str::{t} as std::iter::Iterator>::" for t in ("Split<'a, P>", "RSplit<'a, P>", "SplitN<'a, P>", "RSplitN<'a, P>", "SplitTerminator<'a, P>", "Matches<'a, P>", "Lines<'a>", "SplitWhitespace<'a>", "SplitAsciiWhitespace<'a>", "SplitInclusive<'a, P>")]
def one_char(p): return p.lit is None or len(p.lit) == 1
def scount(x, st, fn, a, w):
    u = split_of(x, st, a[0])
    if u is None: return NotImplemented
    def one(u):
        if isinstance(u, Ite):
            p, q = one(u.a), one(u.b)
            return None if p is None or q is None else ite(u.g, p, q)
        if u.n is not None or not one_char(u.p) or u.kind not in ("split", "matches"): return None
        b = as_bs(x, u.s)
        t = total(x, [occ(b, u.p, k) for k in span(b) if k < b.base.N])
        if u.kind == "matches": return t
        return pite(u.done, 0, padd(t, 1)) if u.done is not False else padd(t, 1)
    r = one(u)
    return NotImplemented if r is None else r
def slast(x, st, fn, a, w):
    u = split_of(x, st, a[0])
    if u is None or isinstance(u, Ite) or u.n is not None or not one_char(u.p) or u.kind != "split" or u.done is not False: return NotImplemented
    b = as_bs(x, u.s); f, pos = last(b, u.p) if not u.rev else first(b, u.p)
    f, pos = nameb(x, f), name(x, f, pos)
    if u.rev: return SOME(sub(b, b.lo, pite(f, pos, b.hi)))
    return SOME(sub(b, pite(f, padd(pos, wid(b, u.p, pos)), b.lo), b.hi))
for q in [IT] + SPLITS:
    decline(q + "count")(scount); decline(q + "last")(slast)
def snth(x, st, fn, a, w):
    u = split_of(x, st, a[0])
    if u is None: return NotImplemented
    if is_z(a[1]): raise Unsupported("symbolic count")
    for i in range(a[1] + 1): r, u = split_step(x, st, u)
    put(x, st, a[0], u)
    return r
for q in [IT] + SPLITS: decline(q + "nth")(snth)
@decline(IT + "advance_by")
def _sadv(x, st, fn, a, w):
    u = split_of(x, st, a[0])
    if u is None: return NotImplemented
    if is_z(a[1]): raise Unsupported("symbolic count")
    r = SOME(UNIT)
    for i in range(a[1]): r, u = split_step(x, st, u)
    put(x, st, a[0], u)
    if isinstance(r, Ite): raise Unsupported("guarded pieces")
    if isinstance(r, Adt): return OK(UNIT) if r.v == 1 else ERR(Opq("nonzero"))
    return Sum(None, ite(Eq(r.d, 1), 0, 1), {0: (UNIT,), 1: (Opq("nonzero"),)})
@decline("std::iter::Iterator::size_hint")
def _shint(x, st, fn, a, w): return Tup((0, NONE())) if split_of(x, st, a[0]) is not None else NotImplemented

# ------------------------------------------------------------------ draining an iterator into a collection
def drain(x, st, fn, itv, w, limit=260):
    """[(state, [(guard, item)])] of everything an iterator yields"""
    if not isinstance(fn.extra, list) or fn.extra is None: raise Unsupported(f"collect from {type(itv).__name__}")
    into, nxt = fn.prog.fns[fn.extra[0]], fn.prog.fns[fn.extra[1]]
    res = []
    for s0, it in x.call(st, into, [itv], w):
        n0 = len(s0.pc)
        ref = x.alloc(s0, it)
        work = [(s0, [])]
        ends = []
        for step in range(limit):
            new = []
            for s, acc in work:
                try: outs = x.call(s, nxt, [ref], w)
                except Unsupported as e:
                    x.unsupported.append((s.pc, str(e), f"{w}")); continue
                for s2, o in outs:
                    s2 = s2.copy() if s2 is s else s2
                    for s3, v in split_opt(x, s2, o):
                        if v is None: ends.append((s3, acc))
                        else: new.append((s3, acc, v))
            if not new: break
            if x.merge and len(new) > 1:
                K = ("drain", x.nfresh); x.nfresh += 1
                for s, acc, v in new: s.mem[K] = v
                m = x.merge_states([s for s, _, _ in new]); v = m.mem.pop(K)
                new = [(m, new[0][1], v)]
            work = []
            for s, acc, v in new:
                g = And(*s.pc[n0:]) if x.merge else True
                if x.memo.get("bstr"): g = nameb(x, g)
                work.append((s, acc + [(g, v)]))
        else:
            for s, acc in work: x.truncated.append((s.pc, f"{fn.full}: many items"))
        if not ends: continue
        if x.merge:
            # items are the same list cut at different lengths
            acc = max((a for _, a in ends), key=len)
            fin = x.merge_states([s for s, _ in ends]) if len(ends) > 1 else ends[0][0]
            res.append((fin, acc))
        else: res += ends
    return res
def collect_vec(x, st, fn, a, w):
    it = x.deref_all(st, a[0]) if isinstance(a[0], (Ref, Lazy)) else a[0]
    if isinstance(it, (It, Ite)) and not has_own(it): return NotImplemented
    if hasattr(it, "collected"): return NotImplemented
    return [(s, Vec(acc, True)) for s, acc in drain(x, st, fn, a[0], w)]
def has_own(it): return has_own(it.a) or has_own(it.b) if isinstance(it, Ite) else isinstance(it, (ChIt, SplitIt, Adt))
decline("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")(collect_vec)
@decline("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend")
def _vext(x, st, fn, a, w):
    out = []
    for s, acc in drain(x, st, fn, a[1], w):
        v = x.load(s, a[0])
        def one(v):
            es = entries(v)
            return Vec(tuple(es) + tuple(acc), all(g is True for g, _ in es))
        x.store(s, a[0], map1(v, one)); out.append((s, UNIT))
    return out
def from_items(x, st, fn, a, w):
    return [(s, joined(x, s, acc, None)) for s, acc in drain(x, st, fn, a[0], w, 80)]
ITEMS = ("char", "&'a char", "&char", "&'a str", "&str", "std::string::String", "std::borrow::Cow<'a, str>", "std::boxed::Box<str, A>")
for t in ITEMS: I[f"<std::string::String as std::iter::FromIterator<{t}>>::from_iter"] = from_items
def _sext(x, st, fn, a, w):
    out = []
    for s, acc in drain(x, st, fn, a[1], w, 80):
        x.store(s, a[0], concat(x, s, [S(x, s, a[0]), joined(x, s, acc, None)])); out.append((s, UNIT))
    return out
for t in ITEMS: I[f"<std::string::String as std::iter::Extend<{t}>>::extend"] = _sext

# ------------------------------------------------------------------ replacing
@over(STRM + "replacen")
def _replacen(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w); t = S(x, st, a[2]); n = a[3]
    if is_z(n) or n > 4: raise Unsupported("replacen")
    def one(s):
        b = as_bs(x, s); parts = []
        for _ in range(n):
            f, pos = first(b, p)
            if f is False: break
            f, pos = nameb(x, f), name(x, f, pos)
            h = pite(f, pos, b.lo); h = name(x, True, h) if is_z(h) else h
            parts += [sub(b, b.lo, h), guarded(x, f, t)]
            lo = pite(f, padd(pos, wid(b, p, pos)), b.lo); lo = name(x, True, lo) if is_z(lo) else lo
            b = BS(b.base, lo, b.hi)
        return concat(x, st, parts + [sub(b, b.lo, b.hi)])
    return map1(s, one)
