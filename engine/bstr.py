"""Bounded byte strings: every &str is a window [lo, hi) of a text of at most N symbolic bytes.

Bytes are 8-bit and positions PW-bit vectors, so every query is a finite bit-vector problem.  A search is
the first (last) position at which a condition holds; nothing is enumerated, the solver picks the text.
"""
import z3
from val import *
import intr, strs, val
from intr import I, S, opt, SOME, NONE, OK, ERR
from rope import Rope
from sym import Unsupported, State
PW = 12

def P(v):
    try: return tobv(v, PW)
    except OutOfRange as e: raise Unsupported(f"position: {e}")
def padd(a, b):
    if not is_z(a) and not is_z(b): return a + b
    return linadd(a, b, 1, PW)
def psub(a, b):
    if not is_z(a) and not is_z(b): return a - b
    return linadd(a, b, -1, PW)
def ple(a, b):
    if not is_z(a) and not is_z(b): return a <= b
    if not is_z(a) and a == 0: return True
    if is_z(a) and is_z(b) and a.eq(b): return True
    if not is_z(b) and b >= (1 << PW): return True
    if not is_z(a) and a >= (1 << PW): return False
    return z3.ULE(P(a), P(b))
def plt(a, b): return Not(ple(b, a))
def peq(a, b): return Eq(a, b)
def pite(g, a, b):
    if not is_z(g): return a if g else b
    if same(a, b): return a
    if z3.is_not(g): g, a, b = g.arg(0), b, a
    return z3.If(g, P(a), P(b))

class Base:
    """a text of up to N bytes"""
    def __init__(self, x, name, N, text=None):
        self.name, self.N = name, N
        self.memo = {}
        if text is None:
            self.b = [z3.BitVec(f"{name}.{i}", 8) for i in range(N)]
            self.n = z3.BitVec(f"{name}.n", PW)
            x.axiom(z3.ULE(self.n, N))
            for i in range(N): x.axiom(Or(z3.ULT(i, self.n) if False else z3.UGT(self.n, i), self.b[i] == 0))
            self.utf8(x)
            if N > 24: x.memo.setdefault("bigtexts", set()).add(name)
        else:
            self.b = [ord(c) for c in text]
            self.n = len(text)
        self.const = text
    @classmethod
    def derived(cls, x, b):
        """a text computed from others: bytes (terms or ints) with a zero after the last"""
        r = cls.__new__(cls)
        x.nfresh += 1
        r.name, r.N, r.memo, r.const = f"text!{x.nfresh}", len(b), {}, None
        r.b = [nm(x, v, 8) if is_z(v) and v.num_args() else v for v in b]
        r.n = None
        return r
    def utf8(self, x):
        N, b = self.N, self.b
        at = lambda i: b[i] if i < N else z3.BitVecVal(0, 8)
        cont = lambda i: (at(i) & 0xC0) == 0x80
        rng = lambda i, a, z: z3.And(z3.UGE(at(i), a), z3.ULE(at(i), z))
        for i in range(N):
            x.axiom(z3.Implies(rng(i, 0xC2, 0xDF), And(cont(i + 1), Not(cont(i + 2)))))
            x.axiom(z3.Implies(b[i] == 0xE0, And(rng(i + 1, 0xA0, 0xBF), cont(i + 2), Not(cont(i + 3)))))
            x.axiom(z3.Implies(b[i] == 0xED, And(rng(i + 1, 0x80, 0x9F), cont(i + 2), Not(cont(i + 3)))))
            x.axiom(z3.Implies(Or(rng(i, 0xE1, 0xEC), rng(i, 0xEE, 0xEF)), And(cont(i + 1), cont(i + 2), Not(cont(i + 3)))))
            x.axiom(z3.Implies(b[i] == 0xF0, And(rng(i + 1, 0x90, 0xBF), cont(i + 2), cont(i + 3), Not(cont(i + 4)))))
            x.axiom(z3.Implies(b[i] == 0xF4, And(rng(i + 1, 0x80, 0x8F), cont(i + 2), cont(i + 3), Not(cont(i + 4)))))
            x.axiom(z3.Implies(rng(i, 0xF1, 0xF3), And(cont(i + 1), cont(i + 2), cont(i + 3), Not(cont(i + 4)))))
            x.axiom(z3.ULE(b[i], 0xF4)); x.axiom(z3.And(b[i] != 0xC0, b[i] != 0xC1))
            # an ASCII byte is not followed by a continuation byte
            x.axiom(z3.Implies(z3.ULE(b[i], 0x7F), Not(cont(i + 1))))
        if N: x.axiom(Not(cont(0)))
    # ---- per-position facts (cached)
    def cont(self, k):
        """byte k is a continuation byte"""
        if k >= self.N or k <= 0: return False
        v = self.b[k]
        return (v & 0xC0) == 0x80
    def match(self, lit, k):
        if k < 0 or k + len(lit) > self.N: return False
        m = self.memo.get((lit, k))
        if m is None:
            m = self.memo[lit, k] = And(*[self.is_(k + i, ord(c)) for i, c in enumerate(lit)])
        return m
    def is_(self, k, c):
        if k >= self.N: return False
        key = ("is", k, c)
        m = self.memo.get(key)
        if m is None: m = self.memo[key] = Eq(self.b[k], c)
        return m
    def char(self, k):
        """the character that starts at k"""
        m = self.memo.get(("char", k))
        if m is None:
            if self.const is not None:
                m = ord(self.const[k:k + 4].encode("latin-1").decode("utf-8", "replace")[0])
            else:
                g = lambda i: z3.ZeroExt(24, tobv(self.b[i], 8)) if i < self.N else z3.BitVecVal(0, 32)
                b0, b1, b2, b3 = g(k), g(k + 1) & 0x3F, g(k + 2) & 0x3F, g(k + 3) & 0x3F
                m = z3.If(z3.ULT(b0, 0x80), b0, z3.If(z3.ULT(b0, 0xE0), ((b0 & 0x1F) << 6) | b1,
                    z3.If(z3.ULT(b0, 0xF0), ((b0 & 0xF) << 12) | (b1 << 6) | b2, ((b0 & 7) << 18) | (b1 << 12) | (b2 << 6) | b3)))
            self.memo["char", k] = m
        return m
    def width(self, k):
        """bytes of the character that starts at k"""
        b = self.b[k]
        if not is_z(b): return 1 if b < 0x80 else 2 if b < 0xE0 else 3 if b < 0xF0 else 4
        return z3.If(z3.ULT(b, 0x80), P(1), z3.If(z3.ULT(b, 0xE0), P(2), z3.If(z3.ULT(b, 0xF0), P(3), P(4))))
    def wsat(self, k):
        """a white-space character starts at k"""
        m = self.memo.get(("ws", k))
        if m is None:
            m = Or(*[self.is_(k, c) for c in (9, 10, 11, 12, 13, 32)], *[self.match(w, k) for w in MB_WS])
            self.memo["ws", k] = m
        return m
    def at(self, p, cond):
        """cond(k) at the symbolic position p"""
        if not is_z(p): return cond(p) if 0 <= p < self.N else False
        return Or(*[And(p == k, cond(k)) for k in range(self.N) if cond(k) is not False])
    def boundary(self, p):
        if not is_z(p): return And(p <= self.N, Not(self.cont(p)), ple(p, self.n))
        return And(ple(p, self.n), Not(self.at(p, self.cont)))
    def text(self, m, lo=0, hi=None):
        """bytes of the window in a model"""
        if self.const is not None: bs = self.const.encode("latin-1")
        else: bs = bytes(pv(m, v) for v in self.b)
        hi = self.n if hi is None else hi
        return bs[pv(m, lo):pv(m, hi)]
MB_WS = [chr(n).encode().decode("latin-1") for a, z in strs.WS for n in range(a, z + 1) if n >= 0x80]
def pv(m, p):
    return m.eval(p, model_completion=True).as_long() if is_z(p) else p

class BS:
    """payload of a Str: window [lo, hi) of a base"""
    __slots__ = ("base", "lo", "hi")
    def __init__(self, base, lo, hi): self.base, self.lo, self.hi = base, lo, hi
    def merge(self, g, o):
        if isinstance(o, BS) and o.base is self.base:
            return BS(self.base, pite(g, self.lo, o.lo), pite(g, self.hi, o.hi))
        return None
    def blen(self): return psub(self.hi, self.lo)
    def byte(self, i):
        p = padd(self.lo, i); B = self.base
        if not is_z(p): return B.b[p] if p < B.N else UNDEF
        r = z3.BitVecVal(0, 8)
        for k in range(B.N - 1, -1, -1): r = z3.If(p == k, tobv(B.b[k], 8), r)
        return r
    def __eq__(self, o): return isinstance(o, BS) and o.base is self.base and same(self.lo, o.lo) and same(self.hi, o.hi)
    def __hash__(self): return hash(id(self.base))
    def __repr__(self): return f"BS({self.base.name}[{str(self.lo)[:40]}..{str(self.hi)[:40]}])"

_const = {}
def as_bs(x, s):
    t = s.t
    if isinstance(t, BS): return t
    if isinstance(t, str):
        if not x.bytes_mode and not t.isascii(): raise Unsupported("characters beyond ASCII in character mode")
        b = _const.get(t)
        if b is None: b = _const[t] = Base(x, repr(t)[:20], len(t), t)
        return BS(b, 0, len(t))
    if isinstance(t, Rope) and x.memo.get("bstr"): return flat(x, t)
    raise Unsupported(f"string operation on {type(t).__name__}")
def flat(x, r):
    """one text for a concatenation of windows"""
    k = ("flat", tuple(q if isinstance(q, str) else (q.base.name, str(q.lo), str(q.hi)) if isinstance(q, BS) else id(q) for q in r.parts))
    if k in x.memo: return x.memo[k][0]
    M = 0
    for q in r.parts:
        if isinstance(q, str): M += len(q)
        elif isinstance(q, BS): M += (q.hi if not is_z(q.hi) else q.base.N) - (q.lo if not is_z(q.lo) else 0)
        else: raise Unsupported("string operation on a concatenation")
    if M > 200: raise Unsupported("string operation on a long concatenation")
    out = [0] * M; off = 0
    def put(j, g, v):
        if g is True: out[j] = v
        elif g is not False: out[j] = z3.If(g, tobv(v, 8), tobv(out[j], 8))
    for q in r.parts:
        if isinstance(q, str):
            for i, c in enumerate(q):
                p = padd(off, i)
                for j in range(M):
                    g = Eq(p, j) if is_z(p) else p == j
                    put(j, g, ord(c))
            off = padd(off, len(q))
            if is_z(off): off = name(x, True, off)
            continue
        for i in range(q.base.N):
            v = And(ple(q.lo, i), plt(i, q.hi))
            if v is False: continue
            p = psub(padd(off, i), q.lo)
            for j in range(M):
                g = And(v, Eq(p, j) if is_z(p) else p == j)
                if g is not False: put(j, g, q.base.b[i])
        off = padd(off, q.blen())
        if is_z(off): off = name(x, True, off)
    B = Base.derived(x, out); B.n = off
    x.memo[k] = (BS(B, 0, off), r)
    return x.memo[k][0]
def symbolic(s):
    """is any case of s a byte-string window (or a concatenation with one)?"""
    if isinstance(s, Ite): return symbolic(s.a) or symbolic(s.b)
    return isinstance(s, Str) and (isinstance(s.t, BS) or isinstance(s.t, Rope))
def map1(s, f):
    if isinstance(s, Ite): return ite(s.g, map1(s.a, f), map1(s.b, f))
    return f(s)
def sub(b, lo, hi):
    if b.base.const is not None and not is_z(lo) and not is_z(hi): return Str(b.base.const[lo:hi])
    return Str(BS(b.base, lo, hi))

# ------------------------------------------------------------------ patterns
class Pat:
    """cond(B, k): the pattern occurs at k; width(B, k): of how many bytes"""
    def __init__(self, cond, width, lit=None): self.cond, self.width, self.lit = cond, width, lit
def lit_pat(l): return Pat(lambda B, k: B.match(l, k) if l else (B.boundary(k)), lambda B, k: len(l), l)
def char_pat(pred):
    memo = {}
    def cond(B, k):
        if k >= B.N: return False
        r = memo.get((id(B), k))
        if r is None:
            r = memo[id(B), k] = And(Not(B.cont(k)), pred(B.char(k)))
        return r
    return Pat(cond, lambda B, k: B.width(k))
def char_set(cs):
    """the characters of a set of code points"""
    cs = sorted(set(cs))
    if len(cs) == 1: return lit_pat(utf8(cs[0]))
    if all(c < 128 for c in cs): return Pat(lambda B, k: Or(*[B.is_(k, c) for c in cs]) if k < B.N else False, lambda B, k: 1)
    return char_pat(lambda ch: Or(*[Eq(ch, c) for c in cs]))
def pred_pat(c, t):
    """the pattern of the predicate t over the character c"""
    if not is_z(t): return char_pat(lambda ch: t)
    s = z3.SimpleSolver(); s.set("timeout", 2000)
    s.add(t, z3.UGE(c, 128), z3.ULE(c, 0x10ffff))
    vs = [v for v in free_consts(t) if not v.eq(c)]
    if not vs and s.check() == z3.unsat:
        on = [i for i in range(128) if z3.is_true(z3.simplify(z3.substitute(t, (c, z3.BitVecVal(i, 32)))))]
        if not on: return char_pat(lambda ch: False)
        return char_set(on)
    return char_pat(lambda ch: fold(z3.simplify(z3.substitute(t, (c, tobv(ch, 32))))))
def free_consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(u)
        todo += u.children()
    return out
def utf8(c): return chr(c).encode().decode("latin-1")
def pattern(x, st, v, w):
    v = x.deref_all(st, v)
    if isinstance(v, Ite): raise Unsupported("guarded pattern")
    if isinstance(v, Str):
        if isinstance(v.t, str): return lit_pat(v.t)
        return sym_pat(x, as_bs(x, v))
    if isinstance(v, int): return lit_pat(utf8(v))
    if is_bv(v): return char_pat(lambda c: Eq(c, v))
    if isinstance(v, (Arr, Vec)):
        cs = list(v.f) if isinstance(v, Arr) else [e for g, e in v.e if g is True]
        cs = [x.deref_all(st, y) for y in cs]
        if cs and all(isinstance(c, int) for c in cs): return char_set(cs)
        return char_pat(lambda c: Or(*[Eq(c, y) for y in cs]))
    if isinstance(v, (Clo, Opq)):
        c = z3.BitVec(f"ch!{x.nfresh}", 32); x.nfresh += 1
        np, nu = len(x.panics), len(x.unsupported)
        r = x.call_value(st.copy(), v, [c], w)
        if len(r) != 1 or len(x.panics) != np or len(x.unsupported) != nu: raise Unsupported("character predicate")
        t = r[0][1]
        return pred_pat(c, t)
    raise Unsupported(f"pattern {type(v).__name__}")
def sym_pat(x, t):
    """the text of a window as a pattern"""
    L = t.blen(); M = (t.hi if not is_z(t.hi) else t.base.N) - (t.lo if not is_z(t.lo) else 0)
    if M > 48: raise Unsupported("long pattern")
    L = name(x, True, L) if is_z(L) else L
    bs = [t.byte(i) for i in range(M)]
    bs = [nm(x, v, 8) if is_z(v) and v.num_args() else v for v in bs]
    memo = {}
    def cond(B, k):
        if k > B.N: return False
        r = memo.get((id(B), k))
        if r is None:
            r = And(*[Or(ple(L, i), Eq(B.b[k + i], bs[i]) if k + i < B.N else False) for i in range(M)], Or(Not(peq(L, 0)), B.boundary(k)))
            r = memo[id(B), k] = nameb(x, r)
        return r
    return Pat(cond, lambda B, k: L)
def fold(t): return True if z3.is_true(t) else False if z3.is_false(t) else t

def inwin(b, k, w):
    """an occurrence at k of w bytes lies in the window"""
    return And(ple(b.lo, k), ple(padd(k, w), b.hi))
def occ(b, p, k):
    c = p.cond(b.base, k)
    if c is False: return False
    return And(c, inwin(b, k, p.width(b.base, k)))
def span(b):
    """positions that can lie in the window"""
    lo = b.lo if not is_z(b.lo) else 0
    hi = b.hi if not is_z(b.hi) else b.base.N
    return range(lo, min(hi, b.base.N) + 1)
def first(b, p):
    """(found, position) of the first occurrence"""
    f, pos = False, 0
    for k in reversed(span(b)):
        c = occ(b, p, k)
        if c is False: continue
        f = Or(c, f); pos = pite(c, k, pos)
    return f, pos
def last(b, p):
    f, pos = False, 0
    for k in span(b):
        c = occ(b, p, k)
        if c is False: continue
        f = Or(c, f); pos = pite(c, k, pos)
    return f, pos
def wid(b, p, pos):
    """width of the occurrence at pos"""
    if p.lit is not None: return len(p.lit)
    if not is_z(pos): return p.width(b.base, pos)
    r = P(1)
    for k in reversed(span(b)):
        if k < b.base.N: r = z3.If(pos == k, P(p.width(b.base, k)), r)
    return r
# share the positions of searches through fresh symbols, to keep terms small
def name(x, f, pos):
    if not is_z(pos) or pos.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_BADD, z3.Z3_OP_BSUB): return pos
    k = ("pos", pos.get_id())
    if k in x.memo: return x.memo[k][0]
    x.nfresh += 1
    s = z3.BitVec(f"pos!{x.nfresh}", PW)
    x.axiom(s == pos)
    x.memo[k] = (s, pos)
    return s
def nameb(x, c):
    if not is_z(c) or z3.is_const(c): return c
    if z3.is_not(c): return z3.Not(nameb(x, c.arg(0)))
    k = ("cond", c.get_id())
    if k in x.memo: return x.memo[k][0]
    x.nfresh += 1
    s = z3.Bool(f"cond!{x.nfresh}")
    x.axiom(s == c)
    x.memo[k] = (s, c)
    return s

def over(path, *more):
    """override the contracts of these paths when a string involved is a byte string"""
    def d(f):
        for p in (path,) + more:
            old = I.get(p)
            def h(x, st, fn, a, w, f=f, old=old, p=p):
                if old is None or x.memo.get("bstr"): 
                    s = S(x, st, a[0])
                    if old is None or symbolic(s): return f(x, st, fn, s, a, w)
                return old(x, st, fn, a, w)
            I[p] = h
        return f
    return d
SP = "core::str::<impl str>::"
@over(SP + "len", "std::string::String::len")
def _len(x, st, fn, s, a, w):
    def one(s):
        if isinstance(s.t, Rope):
            r = 0
            for q in s.t.parts:
                if isinstance(q, BS): r = padd(r, q.blen())
                elif isinstance(q, str): r = padd(r, len(q))
                else: raise Unsupported("length of an opaque text")
            return r
        return as_bs(x, s).blen()
    return map1(s, one)
@over(SP + "is_empty", "std::string::String::is_empty")
def _is_empty(x, st, fn, s, a, w):
    def one(s):
        if isinstance(s.t, Rope):
            if any(isinstance(q, str) for q in s.t.parts): return False
            return And(*[peq(q.lo, q.hi) if isinstance(q, BS) else Eq(z3.Length(q), 0) for q in s.t.parts])
        b = as_bs(x, s); return peq(b.lo, b.hi)
    return map1(s, one)
@over(SP + "contains")
def _contains(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    def one(s):
        r = rope_lit(s, p)
        if r is True: return True
        return nameb(x, first(as_bs(x, s), p)[0])
    return map1(s, one)
def rope_lit(s, p):
    """a pattern that occurs inside a literal part of a concatenation"""
    return isinstance(s.t, Rope) and p.lit is not None and any(isinstance(q, str) and p.lit in q for q in s.t.parts)
def find_(x, st, s, p, fun):
    def one(s):
        b = as_bs(x, s)
        f, pos = fun(b, p)
        if f is False: return NONE()
        f, pos = nameb(x, f), name(x, f, pos)
        return opt(st, f, psub(pos, b.lo))
    return map1(s, one)
@over(SP + "find")
def _find(x, st, fn, s, a, w): return find_(x, st, s, pattern(x, st, a[1], w), first)
@over(SP + "rfind")
def _rfind(x, st, fn, s, a, w): return find_(x, st, s, pattern(x, st, a[1], w), last)
def starts(b, p):
    return b.base.at(b.lo, lambda k: occ(b, p, k)) if is_z(b.lo) else occ(b, p, b.lo)
def ends(b, p):
    B = b.base
    if p.lit is not None:
        L = len(p.lit)
        f = lambda k: And(ple(L, k), ple(padd(b.lo, L), b.hi), B.match(p.lit, k - L)) if k >= L else False
        return Or(*[And(peq(b.hi, k), f(k)) for k in span(b) if f(k) is not False]) if is_z(b.hi) else f(b.hi)
    return Or(*[And(peq(padd(k, p.width(B, k)), b.hi), occ(b, p, k)) for k in span(b) if occ(b, p, k) is not False])
@over(SP + "starts_with")
def _starts(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    def one(s):
        if isinstance(s.t, Rope) and p.lit is not None and isinstance(s.t.parts[0], str) and len(s.t.parts[0]) >= len(p.lit): return s.t.parts[0].startswith(p.lit)
        return nameb(x, starts(as_bs(x, s), p))
    return map1(s, one)
@over(SP + "ends_with")
def _ends(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    return map1(s, lambda s: nameb(x, ends(as_bs(x, s), p)))
def strip_(x, st, s, p, front):
    def one(s):
        b = as_bs(x, s)
        c = nameb(x, starts(b, p) if front else ends(b, p))
        if c is False: return NONE()
        if front: return opt(st, c, sub(b, padd(b.lo, wid(b, p, b.lo)), b.hi))
        if p.lit is None:
            f, pos = last(b, p)
            return opt(st, c, sub(b, b.lo, name(x, f, pos)))
        return opt(st, c, sub(b, b.lo, psub(b.hi, len(p.lit))))
    return map1(s, one)
@over(SP + "strip_prefix")
def _strip_prefix(x, st, fn, s, a, w): return strip_(x, st, s, pattern(x, st, a[1], w), True)
@over(SP + "strip_suffix")
def _strip_suffix(x, st, fn, s, a, w): return strip_(x, st, s, pattern(x, st, a[1], w), False)

# ---- trimming
WSP = char_pat(None); WSP.cond = lambda B, k: B.wsat(k) if k < B.N else False
def trim_lo(x, b, p):
    """first position in the window where p does not hold (a boundary)"""
    pos = b.hi
    for k in reversed(span(b)):
        if k >= b.base.N: continue
        c = And(ple(b.lo, k), plt(k, b.hi), Not(b.base.cont(k)), Not(p.cond(b.base, k)))
        if c is False: continue
        pos = pite(c, k, pos)
    return name(x, True, pos)
def trim_hi(x, b, p):
    pos = b.lo
    for k in span(b):
        if k >= b.base.N: continue
        c = And(ple(b.lo, k), plt(k, b.hi), Not(b.base.cont(k)), Not(p.cond(b.base, k)))
        if c is False: continue
        pos = pite(c, padd(k, b.base.width(k)), pos)
    return name(x, True, pos)
def trim_(x, s, p, left, right):
    def one(s):
        if isinstance(s.t, Rope): return trim_rope(x, s, p, left, right)
        b = as_bs(x, s)
        lo = trim_lo(x, b, p) if left else b.lo
        b2 = BS(b.base, lo, b.hi)
        hi = trim_hi(x, b2, p) if right else b.hi
        return sub(b, lo, hi)
    return map1(s, one)
def trim_rope(x, s, p, left, right):
    ps = list(s.t.parts)
    if p is not WSP: raise Unsupported("trimming a concatenation")
    if left:
        if not isinstance(ps[0], str) or not ps[0].lstrip(" \t\r\n"): raise Unsupported("trimming a concatenation")
        ps[0] = intr.pytrim(ps[0], True, True, False)
    if right:
        if not isinstance(ps[-1], str) or not ps[-1].rstrip(" \t\r\n"): raise Unsupported("trimming a concatenation")
        ps[-1] = intr.pytrim(ps[-1], True, False, True)
    return Str(Rope(ps))
@over(SP + "trim")
def _trim(x, st, fn, s, a, w): return trim_(x, s, WSP, True, True)
@over(SP + "trim_start", SP + "trim_left")
def _trim_start(x, st, fn, s, a, w): return trim_(x, s, WSP, True, False)
@over(SP + "trim_end", SP + "trim_right")
def _trim_end(x, st, fn, s, a, w): return trim_(x, s, WSP, False, True)
@over(SP + "trim_matches")
def _trim_matches(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    if p.lit is not None: p = lit_char(p)
    return trim_(x, s, p, True, True)
def lit_char(p):
    c = p.lit.encode("latin-1").decode()
    if len(c) != 1: raise Unsupported("trim_matches with a string")
    return char_pat(lambda ch: Eq(ch, ord(c)))
@over(SP + "trim_start_matches", SP + "trim_left_matches")
def _trim_start_matches(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    if p.lit is None or len(p.lit) == 1: return trim_(x, s, lit_char(p) if p.lit else p, True, False)
    def one(s):
        b = as_bs(x, s)
        lo = b.lo
        for _ in range(b.base.N // len(p.lit)):
            c = nameb(x, starts(BS(b.base, lo, b.hi), p))
            if c is False: break
            lo = name(x, True, pite(c, padd(lo, len(p.lit)), lo))
        return sub(b, lo, b.hi)
    return map1(s, one)
@over(SP + "trim_end_matches", SP + "trim_right_matches")
def _trim_end_matches(x, st, fn, s, a, w):
    p = pattern(x, st, a[1], w)
    if p.lit is None or len(p.lit) == 1: return trim_(x, s, lit_char(p) if p.lit else p, False, True)
    def one(s):
        b = as_bs(x, s)
        hi = b.hi
        for _ in range(b.base.N // len(p.lit)):
            c = nameb(x, ends(BS(b.base, b.lo, hi), p))
            if c is False: break
            hi = name(x, True, pite(c, psub(hi, len(p.lit)), hi))
        return sub(b, b.lo, hi)
    return map1(s, one)
def split_(x, st, s, p, fun):
    def one(s):
        b = as_bs(x, s)
        f, pos = fun(b, p)
        if f is False: return NONE()
        f, pos = nameb(x, f), name(x, f, pos)
        return opt(st, f, Tup((sub(b, b.lo, pos), sub(b, padd(pos, wid(b, p, pos)), b.hi))))
    return map1(s, one)
@over(SP + "split_once")
def _split_once(x, st, fn, s, a, w): return split_(x, st, s, pattern(x, st, a[1], w), first)
@over(SP + "rsplit_once")
def _rsplit_once(x, st, fn, s, a, w): return split_(x, st, s, pattern(x, st, a[1], w), last)

# ---- slicing
def rng(x, st, v, b, prog, ty):
    """(start, end) relative to the window, from a range value of type ty"""
    v = x.deref_all(st, v)
    t = prog.types[ty][1] if ty is not None else ""
    n = t.split("::")[-1]
    f = [x.deref_all(st, e) for e in v.f] if isinstance(v, (Adt, Tup)) else []
    if n == "Range": return f[0], f[1]
    if n == "RangeFrom": return f[0], None
    if n == "RangeTo": return 0, f[0]
    if n == "RangeFull": return 0, None
    if n == "RangeInclusive": return f[0], padd(f[1], 1)
    if n == "RangeToInclusive": return 0, padd(f[0], 1)
    raise Unsupported(f"index by {t}")
def cut(x, st, s, r, prog, ty):
    """(in range, slice)"""
    def one(s):
        b = as_bs(x, s)
        i, j = rng(x, st, r, b, prog, ty)
        if isinstance(i, Ite) or isinstance(j, Ite): raise Unsupported("guarded position")
        big = [v for v in (i, j) if isinstance(v, int) and v > b.base.N]
        if big: return Tup((False, Str("")))
        lo = padd(b.lo, i); hi = b.hi if j is None else padd(b.lo, j)
        ok = And(ple(i, psub(hi, b.lo)) if False else ple(lo, hi), ple(hi, b.hi), b.base.boundary(lo), b.base.boundary(hi))
        return Tup((nameb(x, ok), sub(b, lo, hi) if not (ok is False) else Str("")))
    return map1(s, one)
def rty(fn, w, i=-1):
    return fn.targs[i] if fn.targs else None
def index_ty(x, fn):
    for t in reversed(fn.targs or []):
        k = fn.prog.types[t]
        if k[0] == "adt" and "Range" in k[1]: return t
    # the impl is generic over a concrete range type: take it from the argument type
    return fn.locals[2] if fn.locals and len(fn.locals) > 2 else None
@over("core::str::traits::<impl std::ops::Index<I> for str>::index", "core::str::traits::<impl std::ops::IndexMut<I> for str>::index_mut", "<std::string::String as std::ops::Index<I>>::index")
def _index(x, st, fn, s, a, w):
    ok, v = cut(x, st, s, a[1], fn.prog, index_ty(x, fn)).f
    out = []
    for s2, b in x.branch(st, ok):
        if b: out.append((s2, v))
        else: x.panic(s2, "slice index out of range or not on a character boundary", *w)
    return out
@over(SP + "get")
def _get(x, st, fn, s, a, w):
    r = cut(x, st, s, a[1], fn.prog, index_ty(x, fn))
    return opt(st, r.f[0], r.f[1])
@over(SP + "is_char_boundary")
def _boundary(x, st, fn, s, a, w):
    def one(s):
        b = as_bs(x, s); p = padd(b.lo, a[1])
        return And(ple(p, b.hi), b.base.boundary(p))
    return map1(s, one)
@over(SP + "split_at")
def _split_at(x, st, fn, s, a, w):
    def one(s):
        b = as_bs(x, s); p = padd(b.lo, a[1])
        ok = And(ple(p, b.hi), b.base.boundary(p))
        return Tup((nameb(x, ok), Tup((sub(b, b.lo, p), sub(b, p, b.hi)))))
    ok, v = map1(s, one).f
    out = []
    for s2, b in x.branch(st, ok):
        if b: out.append((s2, v))
        else: x.panic(s2, "split position", *w)
    return out

# ---- equality
def beq(x, s, t):
    if isinstance(s, Ite): return ite(s.g, beq(x, s.a, t), beq(x, s.b, t))
    if isinstance(t, Ite): return ite(t.g, beq(x, s, t.a), beq(x, s, t.b))
    if isinstance(s.t, str) and isinstance(t.t, str): return s.t == t.t
    if same(s, t): return True
    if isinstance(s.t, str): s, t = t, s
    if isinstance(s.t, BS) and isinstance(t.t, str):
        b, l = s.t, t.t
        key = ("eq", l, b.lo.get_id() if is_z(b.lo) else b.lo, b.hi.get_id() if is_z(b.hi) else b.hi, id(b.base))
        if key not in x.memo:
            x.memo[key] = (nameb(x, eq_lit(b, l)), b)
        return x.memo[key][0]
    if isinstance(s.t, BS) and isinstance(t.t, BS):
        a, b = s.t, t.t
        if min(a.base.N, b.base.N) > 24: raise Unsupported("comparison of two parts of the text")
        k = ("eqw", s.t.base.name, t.t.base.name, str(a.lo), str(a.hi), str(b.lo), str(b.hi))
        if k not in x.memo: x.memo[k] = nameb(x, win_eq(a, b))
        return x.memo[k]
    if isinstance(s.t, Rope) or isinstance(t.t, Rope):
        r = rope_eq(x, s.t, t.t)
        if r is not None: return r
    raise Unsupported(f"comparison of {type(s.t).__name__} and {type(t.t).__name__}")
def eq_lit(b, l):
    if is_z(b.lo): return And(peq(b.hi, padd(b.lo, len(l))), Or(*[And(b.lo == k, b.base.match(l, k)) for k in range(b.base.N - len(l) + 1) if b.base.match(l, k) is not False]) if l else True)
    return And(peq(b.hi, b.lo + len(l)), b.base.match(l, b.lo) if l else True)
def rope_eq(x, u, v):
    """comparison by common literal ends"""
    a = list(u.parts) if isinstance(u, Rope) else [u]; b = list(v.parts) if isinstance(v, Rope) else [v]
    def lit(q): return isinstance(q, str)
    while a and b:
        if lit(a[0]) and lit(b[0]):
            n = min(len(a[0]), len(b[0]))
            if a[0][:n] != b[0][:n]: return False
            a[0], b[0] = a[0][n:], b[0][n:]
            if not a[0]: a = a[1:]
            if not b[0]: b = b[1:]
        elif same(a[0], b[0]): a, b = a[1:], b[1:]
        else: break
    while a and b:
        if lit(a[-1]) and lit(b[-1]):
            n = min(len(a[-1]), len(b[-1]))
            if a[-1][-n:] != b[-1][-n:]: return False
            a[-1], b[-1] = a[-1][:-n], b[-1][:-n]
            if not a[-1]: a = a[:-1]
            if not b[-1]: b = b[:-1]
        elif same(a[-1], b[-1]): a, b = a[:-1], b[:-1]
        else: break
    if not a and not b: return True
    if len(a) == 1 and len(b) == 1: return beq(x, Str(a[0]), Str(b[0])) if not (is_z(a[0]) or is_z(b[0])) else Eq(intr.st_of(a[0]), intr.st_of(b[0]))
    if not a or not b:
        r = a or b
        if all(isinstance(q, BS) for q in r): return And(*[peq(q.lo, q.hi) for q in r])
        if any(lit(q) for q in r): return False
    return None
def win_eq(a, b):
    n = min(a.base.N, b.base.N)
    la, lb = a.blen(), b.blen()
    return And(peq(la, lb), *[Or(ple(la, i), Eq(a.byte(i), b.byte(i))) for i in range(n)])
_seq = intr.seq
def seq(x, s, t):
    if x.memo.get("bstr"): 
        if symbolic(s) or symbolic(t): return beq(x, s, t)
    return _seq(x, s, t)
intr.seq = seq

# ---- bytes and characters
@over(SP + "as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def _as_bytes(x, st, fn, s, a, w): return map1(s, lambda s: Opq("bytes", s))
def bytes_of(x, st, v):
    v = x.deref_all(st, v)
    if isinstance(v, Opq) and v.tag == "bytes": return v.args[0]
    return None
def get_byte(x, st, s, i, w):
    def one(s):
        b = as_bs(x, s)
        if isinstance(i, int) and i >= b.base.N: return NONE()
        return opt(st, plt(padd(b.lo, i), b.hi), x.alloc(st, b.byte(i)))
    return map1(s, one)
def over_bytes(path):
    def d(f):
        old = I.get(path)
        def h(x, st, fn, a, w):
            if x.memo.get("bstr"):
                s = bytes_of(x, st, a[0])
                if s is not None: return f(x, st, fn, s, a, w)
            if old is None: raise Unsupported(fn.path)
            return old(x, st, fn, a, w)
        I[path] = h
        return f
    return d
@over_bytes("core::slice::<impl [T]>::get")
def _bget(x, st, fn, s, a, w): 
    if isinstance(a[1], V): raise Unsupported("byte slice")
    return get_byte(x, st, s, a[1], w)
@over_bytes("core::slice::<impl [T]>::len")
def _blen(x, st, fn, s, a, w): return _len(x, st, fn, s, a, w)
@over_bytes("core::slice::<impl [T]>::is_empty")
def _bis_empty(x, st, fn, s, a, w): return _is_empty(x, st, fn, s, a, w)
@over_bytes("core::slice::<impl [T]>::first")
def _bfirst(x, st, fn, s, a, w): return get_byte(x, st, s, 0, w)
@over_bytes("core::slice::<impl [T]>::last")
def _blast(x, st, fn, s, a, w):
    def one(s):
        b = as_bs(x, s)
        return opt(st, plt(b.lo, b.hi), x.alloc(st, BS(b.base, 0, b.hi).byte(psub(b.hi, 1))))
    return map1(s, one)

class ChIt(V):
    """iterator over characters: kind chars | char_indices | bytes | refs (bytes of a slice); k: items taken at least"""
    __slots__ = ("s", "kind", "orig", "k")
    def __init__(self, s, kind, orig, k=0): self.s, self.kind, self.orig, self.k = s, kind, orig, k
    def __repr__(self): return f"ChIt({self.s})"
    def vsame(self, o): return same(self.s, o.s) and self.kind == o.kind and same(self.orig, o.orig) and self.k == o.k
    def vmerge(self, g, o):
        if not isinstance(o, ChIt) or o.kind != self.kind or not same(self.orig, o.orig): return None
        s = ite(g, self.s, o.s)
        return ChIt(s, self.kind, self.orig, min(self.k, o.k)) if isinstance(s, Str) else None
def chit(kind):
    def f(x, st, fn, s, a, w): return map1(s, lambda s: ChIt(s, kind, as_bs(x, s).lo))
    return f
over(SP + "chars")(chit("chars")); over(SP + "char_indices")(chit("char_indices")); over(SP + "bytes")(chit("bytes"))
def char_at(x, b, p):
    B = b.base
    if not is_z(p): return (tobv(B.char(p), 32) if is_z(B.char(p)) else B.char(p)), B.width(p)
    c, wd = z3.BitVecVal(0, 32), P(1)
    for k in range(B.N - 1, -1, -1):
        c = z3.If(p == k, tobv(B.char(k), 32), c); wd = z3.If(p == k, P(B.width(k)), wd)
    return nm(x, c, 32), name(x, True, wd)
def nm(x, t, w):
    k = ("nm", t.get_id())
    if k not in x.memo:
        x.nfresh += 1
        s = z3.BitVec(f"t!{x.nfresh}", w); x.axiom(s == t); x.memo[k] = (s, t)
    return x.memo[k][0]
def it_step(x, st, it, back=False):
    b = as_bs(x, it.s)
    if it.k >= b.base.N: return NONE(), it
    more = plt(b.lo, b.hi)
    if more is False: return NONE(), it
    if it.kind in ("bytes", "refs"):
        if back: v = b.byte(psub(b.blen(), 1)); nb = sub(b, b.lo, psub(b.hi, 1))
        else: v = b.byte(0); nb = sub(b, padd(b.lo, 1), b.hi)
        if is_z(v): v = nm(x, v, 8)
        if it.kind == "refs": v = x.alloc(st, v)
    elif back:
        # start of the last character
        pos = 0
        for k in span(b):
            if k < b.base.N: 
                c = And(ple(b.lo, k), plt(k, b.hi), Not(b.base.cont(k)))
                if c is not False: pos = pite(c, k, pos)
        pos = name(x, True, pos)
        v, _ = char_at(x, b, pos); nb = sub(b, b.lo, pos)
        if it.kind == "char_indices": v = Tup((psub(pos, it.orig), v))
    else:
        v, wd = char_at(x, b, b.lo) 
        lo = padd(b.lo, wd)
        nb = sub(b, name(x, True, lo) if is_z(lo) and lo.num_args() > 2 else lo, b.hi)
        if it.kind == "char_indices": v = Tup((psub(b.lo, it.orig), v))
    new = ChIt(nb, it.kind, it.orig, it.k + 1)
    if more is True: return SOME(v), new
    old = ChIt(it.s, it.kind, it.orig, it.k + 1)          # exhausted: asking again changes nothing
    m = new.vmerge(nameb(x, more), old)
    return opt(st, nameb(x, more), v), m if m is not None else Ite(more, new, old)
def next_(back):
    def h(x, st, fn, a, w):
        it = x.load(st, a[0])
        def one(it):
            if isinstance(it, Ite):
                (r1, n1), (r2, n2) = one(it.a), one(it.b)
                return ite(it.g, r1, r2), ite(it.g, n1, n2)
            if isinstance(it, Opq) and it.tag == "chars": it = ChIt(it.args[0], "chars", 0)
            if not isinstance(it, ChIt): raise Unsupported(f"next on {type(it).__name__}")
            return it_step(x, st, it, back)
        r, n = one(it)
        x.store(st, a[0], n)
        return r
    return h
for t in ("Chars", "CharIndices"):
    I[f"<std::str::{t}<'a> as std::iter::Iterator>::next"] = next_(False)
    I[f"<std::str::{t}<'a> as std::iter::DoubleEndedIterator>::next_back"] = next_(True)
I["<std::str::Bytes<'_> as std::iter::Iterator>::next"] = next_(False)
I["<std::str::Bytes<'_> as std::iter::DoubleEndedIterator>::next_back"] = next_(True)
I["<std::str::Chars<'a> as std::iter::Iterator>::last"] = lambda x, st, fn, a, w: it_step(x, st, a[0], True)[0]
@over("std::str::Chars::<'a>::as_str_")
def _as_str(x, st, fn, s, a, w): return s
I["std::str::Chars::<'a>::as_str"] = lambda x, st, fn, a, w: x.load(st, a[0]).s

# ---- characters
def isws(c):
    if not is_z(c): return strs.is_ws(chr(c))
    return Or(*[z3.And(z3.UGE(c, a), z3.ULE(c, z)) if a != z else c == a for a, z in strs.WS]) if is_bv(c) else Or(*[z3.And(c >= a, c <= z) for a, z in strs.WS])
def cls(*iv):
    def h(x, st, fn, a, w):
        c = x.deref_all(st, a[0])
        if not is_z(c): return any(p <= c <= q for p, q in iv)
        return Or(*[And(z3.UGE(c, p), z3.ULE(c, q)) if is_bv(c) else And(c >= p, c <= q) for p, q in iv])
    return h
CM = "std::char::methods::<impl char>::"
I[CM + "is_whitespace"] = lambda x, st, fn, a, w: isws(x.deref_all(st, a[0]))
UP, LOW, DIG = (65, 90), (97, 122), (48, 57)
for pre in (CM, "core::num::<impl u8>::"):
    I[pre + "is_ascii_whitespace"] = cls((9, 10), (12, 13), (32, 32))
    I[pre + "is_ascii_alphabetic"] = cls(UP, LOW)
    I[pre + "is_ascii_alphanumeric"] = cls(UP, LOW, DIG)
    I[pre + "is_ascii_digit"] = cls(DIG)
    I[pre + "is_ascii_uppercase"] = cls(UP)
    I[pre + "is_ascii_lowercase"] = cls(LOW)
    I[pre + "is_ascii"] = cls((0, 127))
    I[pre + "is_ascii_punctuation"] = cls((33, 47), (58, 64), (91, 96), (123, 126))

# ---- regular expressions with captures: literals and repeated single-character classes
def rx_items(p):
    """[(kind, data, group)]: ('lit', text) | ('cls', intervals, min)"""
    tree = strs.parse_rx(p)
    out, groups = [], {}
    sc = strs.sre_c
    def cl(op, av):
        if op == sc.LITERAL: return [(av, av)]
        if op == sc.NOT_LITERAL: return strs.cls_neg([(av, av)])
        if op == sc.ANY: return strs.cls_neg([(10, 10)])
        if op == sc.IN: return strs.rx_class(av)
        return None
    def go(seq):
        for op, av in seq:
            if op == sc.SUBPATTERN:
                g = av[0]; i = len(out); go(list(av[3]))
                if g is not None: groups[g] = (i, len(out))
            elif op == sc.LITERAL: out.append(("lit", av))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub_ = av
                if len(sub_) != 1 or hi != sc.MAXREPEAT or lo > 1: raise Unsupported("regular expression with captures")
                c = cl(*sub_[0])
                if c is None: raise Unsupported("regular expression with captures")
                out.append(("rep", c, lo))
            elif cl(op, av) is not None: out.append(("one", cl(op, av)))
            else: raise Unsupported("regular expression with captures")
    go(list(tree))
    return out, groups, tree.state.groupdict
def bytecls(iv):
    """byte-level test of a class that treats all non-ASCII characters alike"""
    hi = strs.cls_and(iv, [(0x80, 0x10FFFF)])
    full = strs.cls_norm(hi) == [(0x80, 0x10FFFF)]
    if hi and not full: raise Unsupported("character class beyond ASCII")
    return strs.cls_and(iv, [(0, 0x7F)]), full
def inb(B, k, c):
    iv, full = c
    if k >= B.N: return False
    b = B.b[k]
    if not is_z(b): return any(p <= b <= q for p, q in iv) or (full and b >= 0x80)
    return Or(*[And(z3.UGE(b, p), z3.ULE(b, q)) if p != q else b == p for p, q in iv], *([z3.UGE(b, 0x80)] if full else []))
def rx_captures(x, b, p):
    """(found, {group: (start, end)}) of the leftmost match in the window"""
    items, groups, names = rx_items(p)
    B, N = b.base, b.base.N
    # from the last item backwards: ok[k], and cut positions ends[i][k] = where item i, started at k, ends
    ok = {k: ple(k, b.hi) for k in range(N + 1)}
    cuts = []          # per item: function start -> end as a table
    for i in range(len(items) - 1, -1, -1):
        it = items[i]; new = {}; end = {}
        if it[0] in ("lit", "one"):
            if it[0] == "lit": t = [lambda k, c=c, j=j: B.is_(k + j, ord(c)) for j, c in enumerate(utf8(it[1]))]
            else:
                c = bytecls(it[1])
                if c[1]: raise Unsupported("single class beyond ASCII in a regular expression")
                t = [lambda k: inb(B, k, c)]
            L = len(t)
            for k in range(N + 1):
                new[k] = And(*[f(k) for f in t], ok[k + L]) if k + L <= N else False
                end[k] = k + L
        else:
            c = bytecls(it[1])
            nxt = items[i + 1] if i + 1 < len(items) else None
            if nxt is not None:
                n0 = [(nxt[1], nxt[1])] if nxt[0] == "lit" else nxt[1]
                if strs.cls_and(it[1], n0) or (nxt[0] == "rep" and nxt[2] == 0): raise Unsupported("ambiguous regular expression")
            # maximal run from k
            run = {N: N}; okr = {N: ok[N]}
            for k in range(N - 1, -1, -1):
                g = And(inb(B, k, c), plt(k, b.hi))
                run[k] = pite(g, run[k + 1], k)
                okr[k] = ite(g, okr[k + 1], ok[k])
            for k in range(N + 1):
                g = And(inb(B, k, c), plt(k, b.hi)) if k < N else False
                new[k] = And(okr[k], g if it[2] else True); end[k] = run[k]
        ok = new; cuts.insert(0, end)
    f, pos = False, 0
    for k in range(N, -1, -1):
        c = And(ple(b.lo, k), ok[k], Not(B.cont(k)))
        if c is False: continue
        f = Or(c, f); pos = pite(c, k, pos)
    f, pos = nameb(x, f), name(x, True, pos)
    ps = [pos]
    for end in cuts:
        cur = ps[-1]
        if not is_z(cur): ps.append(end.get(cur, 0)); continue
        r = 0
        if all(not is_z(v) for v in end.values()) and len({v - k for k, v in end.items()}) == 1: r = padd(cur, end[0])
        else:
            for k in range(N, -1, -1): r = pite(cur == k, end[k], r)
        ps.append(name(x, True, r))
    spans = {0: (ps[0], ps[-1])}
    for g, (i, j) in groups.items(): spans[g] = (ps[i], ps[j])
    return f, spans, names
def rx_of(x, st, v):
    r = x.deref_all(st, v)
    if not (isinstance(r, Opq) and r.tag == "regex" and isinstance(r.args[0].t, str)): raise Unsupported("regular expression not known")
    return r.args[0].t
def _captures(x, st, fn, a, w):
    p = rx_of(x, st, a[0])
    def one(s):
        b = as_bs(x, s)
        f, spans, names = rx_captures(x, b, p)
        return opt(st, f, Opq("captures", s, spans, names))
    return map1(S(x, st, a[1]), one)
I["regex::Regex::captures"] = _captures
def match_at(s, sp, x):
    return Opq("match", sub(as_bs(x, s), *sp), psub(sp[0], as_bs(x, s).lo), psub(sp[1], as_bs(x, s).lo))
def _cap_get(x, st, fn, a, w):
    c = x.deref_all(st, a[0]); k = a[1]
    def one(c):
        kk = k
        if isinstance(kk, V): kk = c.args[2].get(S(x, st, k).t)
        return SOME(match_at(c.args[0], c.args[1][kk], x)) if kk in c.args[1] else NONE()
    return map1(c, one)
I["regex::Captures::<'h>::get"] = I["regex::Captures::<'_>::get"] = _cap_get
I["regex::Captures::<'h>::name"] = I["regex::Captures::<'_>::name"] = _cap_get
def _m(i):
    def h(x, st, fn, a, w):
        return map1(x.deref_all(st, a[0]), lambda m: m.args[i])
    return h
for lt in ("'h", "'_"):
    I[f"regex::Match::<{lt}>::as_str"] = _m(0); I[f"regex::Match::<{lt}>::start"] = _m(1); I[f"regex::Match::<{lt}>::end"] = _m(2)
def _cap_index(x, st, fn, a, w):
    c = x.deref_all(st, a[0])
    def one(c):
        kk = a[1] if not isinstance(a[1], V) else c.args[2].get(S(x, st, a[1]).t)
        if kk not in c.args[1]: raise Unsupported("capture group")
        return sub(as_bs(x, c.args[0]), *c.args[1][kk])
    return map1(c, one)
I["<regex::Captures<'h> as std::ops::Index<usize>>::index"] = I["<regex::Captures<'_> as std::ops::Index<usize>>::index"] = _cap_index
def _rx_find(x, st, fn, a, w):
    p = rx_of(x, st, a[0])
    def one(s):
        f, spans, _ = rx_captures(x, as_bs(x, s), p)
        return opt(st, f, match_at(s, spans[0], x))
    return map1(S(x, st, a[1]), one)
I["regex::Regex::find"] = _rx_find
_ism = I["regex::Regex::is_match"]
def _is_match(x, st, fn, a, w):
    s = S(x, st, a[1])
    if x.memo.get("bstr") and symbolic(s):
        p = rx_of(x, st, a[0])
        return map1(s, lambda s: rx_captures(x, as_bs(x, s), p)[0])
    return _ism(x, st, fn, a, w)
I["regex::Regex::is_match"] = _is_match

# ------------------------------------------------------------------ solving
class Consts:
    """the uninterpreted constants of terms, as bit sets; every node is visited once"""
    def __init__(self): self.memo, self.names, self.index, self.keep, self.sets = {}, [], {}, [], {}
    def mask(self, t):
        memo = self.memo
        r = memo.get(t.get_id())
        if r is not None: return r
        self.keep.append(t)
        stack = [(t, t.get_id(), None)]
        while stack:
            u, i, ch = stack.pop()
            if i in memo: continue
            if ch is None:
                if u.num_args() == 0:
                    m = 0
                    if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = u.decl().name()
                        j = self.index.get(n)
                        if j is None: j = self.index[n] = len(self.names); self.names.append(n)
                        m = 1 << j
                    memo[i] = m; continue
                ch = [(c, c.get_id()) for c in u.children()]
                todo = [(c, k, None) for c, k in ch if k not in memo]
                if todo: stack.append((u, i, ch)); stack.extend(todo); continue
            m = 0
            for _, k in ch: m |= memo[k]
            memo[i] = m
        return memo[t.get_id()]
    def of(self, t):
        m = self.mask(t)
        r = self.sets.get(m)
        if r is None:
            r, k, v = [], 0, m
            while v:
                low = v & -v; r.append(self.names[low.bit_length() - 1]); v ^= low
            self.sets[m] = r
        return r
def consts_of(t, memo): return memo.of(t)
def relevant(x, zs):
    """axioms that matter: those that only define a name used nowhere are left out (they can always be satisfied)"""
    memo = x.memo.get("consts_memo")
    if memo is None: memo = x.memo["consts_memo"] = Consts()
    defs = x.memo.setdefault("defs", {})
    rest = x.memo.setdefault("nondefs", [])
    n = x.memo.get("ndefs", 0)
    for a in x.axioms[n:]:
        if z3.is_eq(a) and z3.is_const(a.arg(0)) and a.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in a.arg(0).decl().name() and a.arg(0).decl().name() not in defs:
            defs[a.arg(0).decl().name()] = a
        else: rest.append(a)
    x.memo["ndefs"] = len(x.axioms)
    need, out = set(), []
    stack = [c for z in zs for c in consts_of(z, memo)]
    # texts that do not occur are left out as a whole: their axioms always have a solution
    groups = x.memo.setdefault("axgroups", {})
    for a in rest[x.memo.get("ngroup", 0):]:
        for g in {c.rsplit(".", 1)[0] for c in consts_of(a, memo)} or {""}: groups.setdefault(g, []).append(a)
    x.memo["ngroup"] = len(rest)
    done = set()
    while stack:
        c = stack.pop()
        if c in need: continue
        need.add(c)
        more = []
        if c in defs: more.append(defs[c])
        g = c.rsplit(".", 1)[0]
        if g not in done:
            done.add(g); more += groups.get(g, [])
        for a in more:
            out.append(a); stack.extend(consts_of(a, memo))
    ids = set(); res = []
    for a in out:
        if a.get_id() not in ids: ids.add(a.get_id()); res.append(a)
    return res
TACTIC = None
def solve(x, zs, timeout_ms, lite=False):
    """lite: leave out the axioms about long texts (enough when it is impossible even so)"""
    import time
    global TACTIC
    g = relevant(x, zs)
    if lite:
        big, memo = x.memo.get("bigtexts", ()), x.memo["consts_memo"]
        h = [a for a in g if not any(c.rsplit(".", 1)[0] in big for c in consts_of(a, memo))]
        if len(h) == len(g): return "same", None
        g = h
    if TACTIC is None: TACTIC = z3.Then("simplify", "bit-blast", "sat")
    s = TACTIC.solver()
    s.set("timeout", timeout_ms)
    s.add(*g); s.add(*zs)
    t0 = time.time(); x.queries += 1
    r = s.check()
    x.solver_time += time.time() - t0
    if r == z3.sat: return "sat", s.model()
    return str(r), (s.reason_unknown() if r == z3.unknown else None)
def prove_bv(x, cs, timeout_ms=120000):
    zs = []
    for c in cs:
        if not is_z(c):
            if not c: return "unsat", None
            continue
        zs.append(c)
    return solve(x, zs, timeout_ms)
def impossible(x, pc, timeout_ms=120000):
    """prove_bv of a path condition, trying the conditions nearest to the point first"""
    zs = [c for c in pc if is_z(c)]
    if any(not is_z(c) and not c for c in pc): return "unsat", None
    if solve(x, zs, 20000, True)[0] == "unsat": return "unsat", None
    for n in (1, 2, 4):
        if n >= len(zs): break
        r, m = solve(x, zs[-n:], 4000)
        if r == "unsat": return r, m
    return solve(x, zs, timeout_ms)
def mk(prog, **k):
    from sym import X
    x = X(prog, I, bytes_mode=True, merge=True, **k)
    x.memo["bstr"] = True
    val.BSTR = True
    return x
def new_text(x, name, N):
    b = Base(x, name, N)
    return b, Str(BS(b, 0, b.n))
import stdc
