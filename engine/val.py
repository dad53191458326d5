"""Values of the symbolic executor.

Scalars are Python ints/bools or z3 terms.  Everything else is an immutable tree of the
classes below; a place is (cell, projection path) and writes rebuild the tree.
"""
import z3

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class V:
    __slots__ = ()

class Adt(V):
    """struct, or enum with a known variant"""
    __slots__ = ("ty", "v", "f")
    def __init__(self, ty, v, f): self.ty, self.v, self.f = ty, v, tuple(f)
    def __repr__(self): return f"Adt({self.ty},{self.v},{list(self.f)})"

class Sum(V):
    """enum whose variant index is a term; alts: variant -> fields (absent: never built)"""
    __slots__ = ("ty", "d", "alts")
    def __init__(self, ty, d, alts): self.ty, self.d, self.alts = ty, d, alts
    def __repr__(self): return f"Sum({self.ty},{self.d},{self.alts})"

class Tup(V):
    __slots__ = ("f",)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return f"Tup{self.f}"

class Arr(V):
    __slots__ = ("f",)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return f"Arr{self.f}"

class Vec(V):
    """guarded list: the sequence of the entries whose guard holds.
    mono: guards are i < len, so a false guard means the end."""
    __slots__ = ("e", "mono")
    def __init__(self, e=(), mono=False): self.e, self.mono = tuple(e), mono
    def __repr__(self): return f"Vec{self.e}"

class Str(V):
    """String or &str contents.  trim_of: this is the trimmed form of that string"""
    __slots__ = ("t", "meta")
    def __init__(self, t, meta=None): self.t, self.meta = t, meta
    def __repr__(self): return f"Str({self.t!r})"

class Ref(V):
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def __repr__(self): return f"Ref({self.cell}{list(self.path)})"
    def __eq__(self, o): return isinstance(o, Ref) and o.cell == self.cell and o.path == self.path
    def __hash__(self): return hash((self.cell, self.path))

class Ite(V):
    __slots__ = ("g", "a", "b")
    def __init__(self, g, a, b): self.g, self.a, self.b = g, a, b
    def __repr__(self): return f"Ite({self.g},{self.a},{self.b})"

class Opq(V):
    """opaque value: an uninterpreted application"""
    __slots__ = ("tag", "args")
    def __init__(self, tag, *args): self.tag, self.args = tag, args
    def __repr__(self): return f"Opq({self.tag},{self.args})"

class Lazy(V):
    """symbolic input of a type, expanded when looked into; equal names are equal values"""
    __slots__ = ("ty", "name", "prog")
    def __init__(self, ty, name, prog): self.ty, self.name, self.prog = ty, name, prog
    def __repr__(self): return f"Lazy({self.name})"

class Clo(V):
    """closure (ty) with captured values; or a fn item"""
    __slots__ = ("ty", "f", "prog")
    def __init__(self, ty, f, prog): self.ty, self.f, self.prog = ty, tuple(f), prog
    def __repr__(self): return f"Clo({self.ty})"

class Co(V):
    """coroutine: state, captured variables, saved locals per state"""
    __slots__ = ("ty", "d", "up", "alts", "prog")
    def __init__(self, ty, d, up, alts, prog): self.ty, self.d, self.up, self.alts, self.prog = ty, d, tuple(up), alts, prog

class It(V):
    """slice iterator: place of the sequence, next index"""
    __slots__ = ("ref", "pos", "kind")
    def __init__(self, ref, pos, kind="slice"): self.ref, self.pos, self.kind = ref, pos, kind
    def __repr__(self): return f"It({self.ref},{self.pos})"

UNIT = Tup(())

# ---------------------------------------------------------------- scalars
def is_z(x): return isinstance(x, z3.ExprRef)

_esc_cache = {}
def sval(s):
    """z3 string constant for a Python string (code points)"""
    r = _esc_cache.get(s)
    if r is None:
        o = []
        for c in s:
            n = ord(c)
            if 0x20 <= n < 0x7f and c != "\\": o.append(c)
            else: o.append("\\u{%x}" % n)
        r = _esc_cache[s] = z3.StringVal("".join(o))
    return r

def st(x):
    """z3 term of a Str payload"""
    return sval(x) if isinstance(x, str) else x

def zi(x): return x if is_z(x) else z3.IntVal(int(x))
def zb(x): return x if is_z(x) else z3.BoolVal(bool(x))

def Not(a):
    if not is_z(a): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def And(*xs):
    o = []
    for x in xs:
        if not is_z(x):
            if not x: return False
            continue
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        o.append(x)
    if not o: return True
    if len(o) == 1: return o[0]
    return z3.And(*o)

def Or(*xs):
    o = []
    for x in xs:
        if not is_z(x):
            if x: return True
            continue
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        o.append(x)
    if not o: return False
    if len(o) == 1: return o[0]
    if len(o) == 2 and (z3.is_not(o[0]) and o[0].arg(0).eq(o[1]) or z3.is_not(o[1]) and o[1].arg(0).eq(o[0])): return True
    return z3.Or(*o)

def If(g, a, b):
    if not is_z(g): return a if g else b
    return z3.If(g, a, b)

def is_bv(x): return isinstance(x, z3.BitVecRef)
class OutOfRange(Exception): pass
def tobv(t, w):
    """bit-vector of width w for a bounded non-negative integer (Python int or guarded constants)"""
    if is_bv(t):
        if t.size() != w: raise OutOfRange(f"width {t.size()} for {w}")
        return t
    if isinstance(t, bool): t = int(t)
    if isinstance(t, int):
        if not 0 <= t < (1 << w): raise OutOfRange(f"constant {t}")
        return z3.BitVecVal(t, w)
    if z3.is_int_value(t): return tobv(t.as_long(), w)
    if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), tobv(t.arg(1), w), tobv(t.arg(2), w))
    raise OutOfRange("integer term among positions")
_ie = {}
def ite_eq(t, c):
    """t == c for a tree of guarded constants"""
    if z3.is_int_value(t): return t.as_long() == c
    if not z3.is_app_of(t, z3.Z3_OP_ITE): return t == c
    k = (t.get_id(), c)
    r = _ie.get(k)
    if r is None:
        g, x, y = t.arg(0), ite_eq(t.arg(1), c), ite_eq(t.arg(2), c)
        if not is_z(x) and not is_z(y): v = x if x == y else g if x else Not(g)
        elif x is True: v = Or(g, y)
        elif x is False: v = And(Not(g), y)
        elif y is True: v = Or(Not(g), x)
        elif y is False: v = And(g, x)
        else: v = z3.If(g, x, y)
        if len(_ie) > 200000: _ie.clear()
        r = _ie[k] = (v, t)
    return r[0]
def Eq(a, b):
    if not is_z(a) and not is_z(b): return a == b
    if is_bv(a) or is_bv(b):
        if not is_bv(a): a, b = b, a
        if isinstance(b, int) and not 0 <= b < (1 << a.size()): return False
        b = tobv(b, a.size())
        if z3.is_bv_value(a) and z3.is_bv_value(b): return a.as_long() == b.as_long()
        return True if a.eq(b) else a == b
    if isinstance(b, int) and not isinstance(b, bool) and is_z(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int(a): return ite_eq(a, b)
    if isinstance(a, int) and not isinstance(a, bool) and is_z(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_int(b): return ite_eq(b, a)
    if is_z(a) and is_z(b) and a.eq(b): return True
    if isinstance(a, bool): a, b = b, a
    if isinstance(b, bool): return a if b else Not(a)
    if isinstance(a, str): a = sval(a)
    if isinstance(b, str): b = sval(b)
    return a == b

def same(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if is_z(a) or is_z(b): return is_z(a) and is_z(b) and a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, V):
        if isinstance(a, Str): return same(a.t, b.t)
        if isinstance(a, Ref): return a == b
        if isinstance(a, Adt): return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Tup) or isinstance(a, Arr): return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Sum): return same(a.d, b.d) and a.alts.keys() == b.alts.keys() and all(len(a.alts[k]) == len(b.alts[k]) and all(same(x, y) for x, y in zip(a.alts[k], b.alts[k])) for k in a.alts)
        if isinstance(a, Vec): return len(a.e) == len(b.e) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.e, b.e))
        if isinstance(a, Ite): return same(a.g, b.g) and same(a.a, b.a) and same(a.b, b.b)
        if isinstance(a, Opq): return a.tag == b.tag and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, Lazy): return a.name == b.name
        if isinstance(a, Clo): return a.ty == b.ty and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
        if hasattr(a, "vsame"): return a.vsame(b)
        if isinstance(a, It): return a.ref == b.ref and a.pos == b.pos and a.kind == b.kind
        return False
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

BSTR = False      # bounded byte strings: constant texts are kept apart under a merge
def ite(g, a, b):
    """merge two values under guard g"""
    if not is_z(g): return a if g else b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, bool) or z3.is_bool(a) if is_z(a) else isinstance(a, bool):
        if isinstance(b, bool) or is_z(b):
            if same(a, b): return a
            if a is True and b is False: return g
            if a is False and b is True: return Not(g)
            if a is True: return Or(g, b)
            if a is False: return And(Not(g), b)
            if b is True: return Or(Not(g), a)
            if b is False: return And(g, a)
            return z3.If(g, zb(a), zb(b))
    if isinstance(a, int) or is_z(a):
        if isinstance(b, bool):
            return ite(Not(g), b, a)
        if isinstance(b, int) or is_z(b):
            if same(a, b): return a
            if is_bv(a) or is_bv(b):
                w = a.size() if is_bv(a) else b.size()
                return z3.If(g, tobv(a, w), tobv(b, w))
            return z3.If(g, zi(a), zi(b))
        return Ite(g, a, b)
    if same(a, b): return a
    if hasattr(a, "vmerge"):
        m = a.vmerge(g, b)
        return m if m is not None else Ite(g, a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        if hasattr(a.t, "merge") or hasattr(b.t, "merge"):
            m = a.t.merge(g, b.t) if hasattr(a.t, "merge") else None
            return Str(m) if m is not None else Ite(g, a, b)
        if BSTR: return Ite(g, a, b)
        if a.meta is None and b.meta is None:
            return Str(z3.If(g, st(a.t), st(b.t)))
        return Ite(g, a, b)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.v == b.v and len(a.f) == len(b.f):
        return Adt(a.ty if a.ty is not None else b.ty, a.v, [ite(g, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f):
        return Tup([ite(g, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.f) == len(b.f):
        return Arr([ite(g, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Clo) and isinstance(b, Clo) and a.ty == b.ty:
        return Clo(a.ty, [ite(g, x, y) for x, y in zip(a.f, b.f)], a.prog)
    if isinstance(a, (Adt, Sum)) and isinstance(b, (Adt, Sum)):
        da, db = (a.v if isinstance(a, Adt) else a.d), (b.v if isinstance(b, Adt) else b.d)
        aa = {a.v: a.f} if isinstance(a, Adt) else a.alts
        ba = {b.v: b.f} if isinstance(b, Adt) else b.alts
        alts = {}
        for k in set(aa) | set(ba):
            if k in aa and k in ba: alts[k] = tuple(ite(g, x, y) for x, y in zip(aa[k], ba[k]))
            else: alts[k] = aa[k] if k in aa else ba[k]
        return Sum(a.ty if a.ty is not None else b.ty, ite(g, da, db), alts)
    if isinstance(a, Vec) and isinstance(b, Vec):
        n = 0
        while n < len(a.e) and n < len(b.e) and same(a.e[n][0], b.e[n][0]) and same(a.e[n][1], b.e[n][1]): n += 1
        suf = [(And(g, x), y) for x, y in a.e[n:]] + [(And(Not(g), x), y) for x, y in b.e[n:]]
        return Vec(a.e[:n] + tuple(suf), False)
    if isinstance(a, Co) and isinstance(b, Co) and a.ty == b.ty:
        alts = {}
        for k in set(a.alts) | set(b.alts):
            if k in a.alts and k in b.alts: alts[k] = tuple(ite(g, x, y) for x, y in zip(a.alts[k], b.alts[k]))
            else: alts[k] = a.alts.get(k) or b.alts.get(k)
        return Co(a.ty, ite(g, a.d, b.d), [ite(g, x, y) for x, y in zip(a.up, b.up)], alts, a.prog)
    return Ite(g, a, b)

def cases(v, g=True):
    """[(guard, value)] with no Ite at the top"""
    if isinstance(v, Ite):
        return cases(v.a, And(g, v.g)) + cases(v.b, And(g, Not(v.g)))
    return [(g, v)]

# ------------------------------------------------------------------ positions: linear normal form (modulo the width)
_lin = {}
def lin(t):
    """({atom id: (coefficient, atom)}, constant) of a bit-vector position"""
    if not is_z(t): return {}, t
    k = t.get_id()
    r = _lin.get(k)
    if r is not None: return r[0], r[1]
    d = t.decl().kind()
    if d == z3.Z3_OP_BNUM: a, c = {}, t.as_long()
    elif d == z3.Z3_OP_BADD or d == z3.Z3_OP_BSUB:
        a, c = lin(t.arg(0)); a = dict(a)
        s = 1 if d == z3.Z3_OP_BADD else -1
        for i in range(1, t.num_args()):
            b, e = lin(t.arg(i)); c += s * e
            for q, (m, u) in b.items():
                n = a.get(q, (0, u))[0] + s * m
                if n: a[q] = (n, u)
                else: a.pop(q, None)
    else: a, c = {k: (1, t)}, 0
    _lin[k] = (a, c, t)
    return a, c
def linadd(x, y, s, w):
    """x + s*y as a canonical term of width w (or an int when nothing symbolic is left and it is not negative)"""
    a, c = lin(x); b, e = lin(y)
    a = dict(a); c = c + s * e
    for q, (m, u) in b.items():
        n = a.get(q, (0, u))[0] + s * m
        if n: a[q] = (n, u)
        else: a.pop(q, None)
    ifs = [(q, u) for q, (m, u) in a.items() if u.decl().kind() == z3.Z3_OP_ITE]
    if len(ifs) == 1 and a[ifs[0][0]][0] == 1 and (len(a) > 1 or c):      # push the sum into the branches
        q, u = ifs[0]
        if if_depth(u) <= 3:
            rest = {k: v for k, v in a.items() if k != q}
            t = linterm(rest, c, w)
            g, p1, p2 = u.arg(0), linadd(u.arg(1), t, 1, w), linadd(u.arg(2), t, 1, w)
            if not is_z(p1) and not is_z(p2) and p1 == p2: return p1
            return z3.If(g, tobv(p1, w), tobv(p2, w))
    return linterm(a, c, w) if not any(abs(m) > 4 for m, _ in a.values()) else tobv(x, w) + tobv(y, w) if s > 0 else tobv(x, w) - tobv(y, w)
def if_depth(t, d=0):
    if d > 4 or t.decl().kind() != z3.Z3_OP_ITE: return d
    return max(if_depth(t.arg(1), d + 1), if_depth(t.arg(2), d + 1))
def linterm(a, c, w):
    pos = [u for q in sorted(a) for m, u in (a[q],) for _ in range(m)]
    neg = [u for q in sorted(a) for m, u in (a[q],) for _ in range(-m)]
    if not pos and not neg: return c if 0 <= c < (1 << w) else z3.BitVecVal(c, w)
    r = None
    for u in pos: r = u if r is None else r + u
    if r is None: r = z3.BitVecVal(c, w); c = 0
    for u in neg: r = r - u
    M = 1 << w
    c %= M
    if c: r = r + z3.BitVecVal(c, w)
    return r
