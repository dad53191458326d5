"""Symbolic executor over dumped MIR."""
import re
import z3, time
from val import *
import val as _val

class Unsupported(Exception):
    pass

class State:
    __slots__ = ("mem", "pc", "cnt")
    def __init__(self, mem=None, pc=(), cnt=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.cnt = cnt or {}
    def copy(self):
        return State(dict(self.mem), self.pc, dict(self.cnt))

RANGES = {}
def int_range(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

class Panic:
    def __init__(self, pc, msg, where, kind="panic"):
        self.pc, self.msg, self.where, self.kind = pc, msg, where, kind
    def __repr__(self): return f"Panic({self.msg} @ {self.where})"

class X:
    """one symbolic execution context.
    merge=True joins states at control-flow joins (guarded values); merge=False enumerates paths.
    bytes_mode: strings are sequences of UTF-8 bytes, otherwise of Unicode scalar values."""
    def __init__(self, prog, intrinsics, merge=True, bytes_mode=False, vec_bound=2, loop_bound=64,
                 max_paths=20000, timeout_ms=20000, hooks=None, deadline=None):
        self.prog = prog
        self.intr = intrinsics
        self.hooks = hooks or {}
        self.merge = merge
        self.bytes_mode = bytes_mode
        self.vec_bound = vec_bound
        self.loop_bound = loop_bound
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.axioms = []
        self._axset = set()
        self.panics = []
        self.truncated = []      # paths cut at a bound
        self.unsupported = []    # (pc, reason, where): paths that leave what can be encoded
        self.fid = 0
        self.nfresh = 0
        self.encoded = {}        # functions executed -> times
        self.contracts = {}      # functions replaced by contracts
        self.expanded = {}
        self.lazy_cells = {}
        self.consts = {}
        self.fresh_log = []
        self.memo = {}
        self.queries = 0
        self.solver_time = 0.0
        self.stmts = 0
        self.nblocks = self.nedges = 0
        self._feas = {}
        self.depth = 0
        self.strsyms = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self._nax = 0
        _val.EXPAND = self.expand
        _val.BSTR = False

    # ------------------------------------------------------------ symbols
    def fresh(self, sort, name):
        self.nfresh += 1
        n = f"{name}!{self.nfresh}"
        return {"int": z3.Int, "bool": z3.Bool, "str": z3.String}[sort](n)
    def axiom(self, f):
        if not is_z(f):
            if f: return
            f = z3.BoolVal(False)
        k = f.get_id()
        if k in self._axset: return
        self._axset.add(k)
        self.axioms.append(f)
    def new_str(self, name):
        s = z3.String(name)
        self.note_str(s)
        return s
    def note_str(self, s):
        n = s.decl().name()
        if n not in self.strsyms:
            self.strsyms[n] = s
            if self.bytes_mode:
                import strs
                self.axiom(z3.InRe(s, strs.utf8_re()))
        return s
    def sym(self, ty, name):
        return self.expand(Lazy(ty, name, self.prog))

    def expand(self, v):
        if not isinstance(v, Lazy): return v
        r = self.expanded.get(v.name)
        if r is not None: return r
        prog = v.prog
        t = prog.types[v.ty]; k = t[0]; n = v.name
        L = lambda ty, suffix: Lazy(ty, n + suffix, prog)
        if k == "bool": r = z3.Bool(n)
        elif k == "int" and self.memo.get("bstr"): r = z3.BitVec(n, t[1])
        elif k == "char" and self.memo.get("bstr"):
            r = z3.BitVec(n, 32); self.axiom(z3.And(z3.ULE(r, 0x10ffff), z3.Or(z3.ULT(r, 0xd800), z3.UGT(r, 0xdfff))))
        elif k == "int":
            r = z3.Int(n); lo, hi = int_range(t[1], t[2]); self.axiom(z3.And(r >= lo, r <= hi))
        elif k == "char":
            r = z3.Int(n); self.axiom(z3.And(r >= 0, r <= 0x10ffff, z3.Or(r < 0xd800, r > 0xdfff)))
        elif k == "float": r = Opq("float", n)
        elif k == "str": r = self.lazy_str(n)
        elif k in ("ref", "ptr"):
            it = prog.types[t[1]]
            if it[0] == "str": r = self.lazy_str(n)
            else: r = self.lazy_cell(n + ".*", t[1], prog)
        elif k == "tuple": r = Tup([L(x, f".{i}") for i, x in enumerate(t[1])])
        elif k == "array": r = Arr([L(t[1], f"[{i}]") for i in range(t[2] or 0)])
        elif k == "slice":
            r = self.sym_vec(t[1], n, prog)
        elif k == "adt":
            path = t[1]
            h = self.hooks.get("lazy:" + path)
            if h: r = h(self, v, t)
            elif path == "std::string::String": r = self.lazy_str(n)
            elif path == "std::vec::Vec": r = self.sym_vec(t[2][0], n, prog)
            elif path in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
                it = prog.types[t[2][0]]
                if it[0] == "str": r = self.lazy_str(n)
                else: r = self.lazy_cell(n + ".*", t[2][0], prog)
            elif t[3] == "enum" and t[4]:
                if self.memo.get("bstr"):
                    d = z3.BitVec(n + ".d", 8); self.axiom(z3.ULT(d, len(t[4])))
                else:
                    d = z3.Int(n + ".d")
                    self.axiom(z3.And(d >= 0, d < len(t[4])))
                r = Sum(v.ty, d, {i: tuple(L(f[1], f".{var[0]}.{f[0]}") for f in var[2]) for i, var in enumerate(t[4])})
            elif t[3] == "struct" and t[4]:
                r = Adt(v.ty, 0, [L(f[1], f".{f[0]}") for f in t[4][0][2]])
            else: r = Opq("sym", prog.tyname(v.ty), n)
        elif k in ("fndef", "closure"): r = Clo(v.ty, (), prog)
        else: r = Opq("sym", prog.tyname(v.ty), n)
        self.expanded[n] = r
        return r
    def lazy_str(self, n):
        if not self.memo.get("bstr"): return Str(self.new_str(n))
        import bstr
        b, r = bstr.new_text(self, n, self.memo["strlen_of"](n) if "strlen_of" in self.memo else 8)
        return r
    def sym_vec(self, ety, n, prog):
        if self.memo.get("bstr"):
            ln = z3.BitVec(n + ".len", 8); self.axiom(z3.ULE(ln, self.vec_bound))
            return Vec([(z3.UGT(ln, i), Lazy(ety, f"{n}[{i}]", prog)) for i in range(self.vec_bound)], mono=True)
        ln = z3.Int(n + ".len")
        self.axiom(z3.And(ln >= 0, ln <= self.vec_bound))
        return Vec([(ln > i, Lazy(ety, f"{n}[{i}]", prog)) for i in range(self.vec_bound)], mono=True)
    def lazy_cell(self, key, ty, prog):
        c = ("H", key)
        self.lazy_cells[c] = (ty, prog)
        return Ref(c)

    # ------------------------------------------------------------ solver
    def feasible(self, pc):
        """may this path condition hold? (unknown counts as yes)"""
        cs = [c for c in pc if is_z(c)]
        if any(c is False for c in pc): return False
        if not cs: return True
        key = tuple(c.get_id() for c in cs)
        r = self._feas.get(key)
        if r is None:
            s = self.solver
            while self._nax < len(self.axioms):
                s.add(self.axioms[self._nax]); self._nax += 1
            t0 = time.time()
            s.push(); s.add(*cs)
            self.queries += 1
            res = s.check()
            s.pop()
            self.solver_time += time.time() - t0
            r = res != z3.unsat
            self._feas[key] = (r, cs)
            return r
        return r[0]

    def fork(self, st, cond):
        """state restricted to cond, or None"""
        if not is_z(cond):
            return st if cond else None
        c = z3.simplify(cond) if not z3.is_app_of(cond, z3.Z3_OP_UNINTERPRETED) else cond
        if z3.is_false(c): return None
        if z3.is_true(c): return st
        n = st.copy()
        n.pc = st.pc + (cond,)
        if not self.merge and not self.feasible(n.pc): return None
        return n
    def branch(self, st, cond):
        """[(state, bool)]"""
        if not is_z(cond): return [(st, bool(cond))]
        out = []
        a = self.fork(st, cond)
        if a is not None: out.append((a, True))
        b = self.fork(st, Not(cond))
        if b is not None: out.append((b, False))
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, tag="A"):
        self.nfresh += 1
        c = (tag, self.nfresh)
        st.mem[c] = v
        return Ref(c)
    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            lz = self.lazy_cells.get(c)
            if lz: 
                v = Lazy(lz[0], c[1], lz[1])
                return self.expand(v)
            v = self.consts.get(c)
            if v is None: return UNDEF
        return v
    def get(self, v, path):
        for e in path:
            v = self.get1(v, e)
        return v
    def get1(self, v, e):
        if isinstance(v, Lazy): v = self.expand(v)
        if v is UNDEF: return UNDEF
        if isinstance(v, Ite):
            return ite(v.g, self.get1(v.a, e), self.get1(v.b, e))
        if e[0] == "m":
            if not hasattr(v, "mget"): raise Unsupported(f"key of {type(v).__name__}")
            return v.mget(self, e[1])[1]
        if e[0] == "f":
            i = e[1]
            if isinstance(v, (Adt, Tup)):
                if i < len(v.f): return v.f[i]
                return UNDEF
            if isinstance(v, (Ref, Str)): return v          # Box / NonNull / Unique wrappers
            if isinstance(v, Clo): return v.f[i]
            if isinstance(v, Co): return v.up[i]
            if isinstance(v, Sum) and len(v.alts) == 1:
                return next(iter(v.alts.values()))[i]
            if isinstance(v, Opq): return Opq("field", v, i)
            raise Unsupported(f"field {i} of {type(v).__name__} {str(v)[:80]}")
        if e[0] == "d":
            i = e[1]
            if isinstance(v, Adt):
                return v if v.v == i else UNDEF
            if isinstance(v, Sum):
                return Adt(v.ty, i, v.alts[i]) if i in v.alts else UNDEF
            if isinstance(v, Co):
                return Tup(v.alts.get(i, ()))
            raise Unsupported(f"downcast of {type(v).__name__} {str(v)[:80]}")
        if e[0] == "i":
            if isinstance(v, Arr): return v.f[e[1]] if e[1] < len(v.f) else UNDEF
            if isinstance(v, Vec): return v.e[e[1]][1] if e[1] < len(v.e) else UNDEF
            raise Unsupported(f"index of {type(v).__name__}")
        raise Unsupported(f"projection {e}")
    def put(self, v, path, new):
        if not path: return new
        e, rest = path[0], path[1:]
        if isinstance(v, Lazy): v = self.expand(v)
        if isinstance(v, Ite):
            return Ite(v.g, self.put(v.a, path, new), self.put(v.b, path, new))
        if e[0] == "m":
            if not hasattr(v, "mget"): raise Unsupported(f"write key of {type(v).__name__}")
            return v.mput(self, e[1], self.put(v.mget(self, e[1])[1], rest, new) if rest else new)
        if e[0] == "f":
            i = e[1]
            if v is UNDEF: v = Tup(())
            if isinstance(v, Clo):
                f = list(v.f); f[i] = self.put(f[i], rest, new); return Clo(v.ty, f, v.prog)
            if isinstance(v, Co):
                f = list(v.up); f[i] = self.put(f[i], rest, new); return Co(v.ty, v.d, f, v.alts, v.prog)
            if isinstance(v, (Adt, Tup)):
                f = list(v.f)
                while len(f) <= i: f.append(UNDEF)
                f[i] = self.put(f[i], rest, new)
                return Tup(f) if isinstance(v, Tup) else Adt(v.ty, v.v, f)
            if isinstance(v, Ref) and i == 0:
                return self.put(v, rest, new) if rest else new
            raise Unsupported(f"write field of {type(v).__name__}")
        if e[0] == "d":
            i = e[1]
            if v is UNDEF: v = Adt(None, i, ())
            if isinstance(v, Adt):
                if v.v == i: return self.put(v, rest, new)
                v = Sum(v.ty, v.v, {v.v: v.f})
            if isinstance(v, Sum):
                cur = Adt(v.ty, i, v.alts.get(i, ()))
                nw = self.put(cur, rest, new)
                alts = dict(v.alts); alts[i] = nw.f
                return Sum(v.ty, v.d, alts)
            if isinstance(v, Co):
                cur = Tup(v.alts.get(i, ()))
                nw = self.put(cur, rest, new)
                alts = dict(v.alts); alts[i] = nw.f
                return Co(v.ty, v.d, v.up, alts, v.prog)
            raise Unsupported(f"write downcast of {type(v).__name__}")
        if e[0] == "i":
            if isinstance(v, Arr):
                f = list(v.f); f[e[1]] = self.put(f[e[1]], rest, new); return Arr(f)
            if isinstance(v, Vec):
                f = list(v.e); f[e[1]] = (f[e[1]][0], self.put(f[e[1]][1], rest, new)); return Vec(f, v.mono)
            raise Unsupported(f"write index of {type(v).__name__}")
        raise Unsupported(f"write projection {e}")
    def load(self, st, r):
        """value at a reference (or the value itself for str and guarded references)"""
        if isinstance(r, Lazy): r = self.expand(r)
        if isinstance(r, Ref):
            v = self.get(self.cell(st, r.cell), r.path)
            return self.expand(v) if isinstance(v, Lazy) else v
        if isinstance(r, Ite):
            return ite(r.g, self.load(st, r.a), self.load(st, r.b))
        return r
    def store(self, st, r, v):
        if isinstance(r, Lazy): r = self.expand(r)
        if isinstance(r, Ref):
            if not r.path: st.mem[r.cell] = v
            else: st.mem[r.cell] = self.put(self.cell(st, r.cell), r.path, v)
            return
        if isinstance(r, Ite):
            for g, rr in cases(r):
                old = self.load(st, rr)
                self.store(st, rr, ite(g, v, old))
            return
        raise Unsupported(f"store through {type(r).__name__} {str(r)[:60]}")
    def deref_all(self, st, v):
        """follow references down to a non-reference value"""
        for _ in range(12):
            if isinstance(v, Lazy): v = self.expand(v)
            if isinstance(v, Ref): v = self.load(st, v)
            elif isinstance(v, Ite):
                a, b = self.deref_all(st, v.a), self.deref_all(st, v.b)
                r = ite(v.g, a, b)
                return r
            else: return v
        return v

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """('ref', Ref) or ('val', value)"""
        cur = Ref((fr.fid, p[0]))
        val = None          # when set, the place is this value (no address)
        for e in p[1:]:
            if e == "*":
                v = val if val is not None else self.load(st, cur)
                if isinstance(v, Lazy): v = self.expand(v)
                if isinstance(v, Ref): cur, val = v, None
                elif isinstance(v, Str): val = v
                elif isinstance(v, Ite):
                    cs = cases(v)
                    if all(isinstance(x, Ref) for _, x in cs): cur, val = v, None
                    else: val = v
                elif v is UNDEF: val = UNDEF
                elif isinstance(v, (Opq, Clo)): val = v
                else:
                    val = v
            elif e == "=": continue
            else:
                if e[0] == "i":
                    idx = st.mem.get((fr.fid, e[1]))
                    if is_z(idx):
                        idx = z3.simplify(idx)
                        if z3.is_int_value(idx): idx = idx.as_long()
                    if is_z(idx):
                        base = val if val is not None else self.load(st, cur)
                        base = self.deref_all(st, base)
                        if isinstance(base, (Arr, Vec)):
                            n = len(base.f) if isinstance(base, Arr) else len(base.e)
                            r = UNDEF
                            for i in range(n): r = ite(Eq(idx, i), self.get1(base, ("i", i)), r)
                            val = r
                            continue
                        if isinstance(base, Opq) and base.tag == "bytes":
                            val = self.byte_at(base.args[0], idx); continue
                        raise Unsupported("symbolic index")
                    base = val if val is not None else self.load(st, cur)
                    if isinstance(base, Opq) and base.tag == "bytes":
                        val = self.byte_at(base.args[0], idx); continue
                    pe = ("i", idx)
                elif e[0] == "c":
                    base = val if val is not None else self.load(st, cur)
                    if isinstance(base, Opq) and base.tag == "bytes":
                        if e[3]: raise Unsupported("constant index from end of bytes")
                        val = self.byte_at(base.args[0], e[1]); continue
                    if e[3]:
                        if isinstance(base, Arr): pe = ("i", len(base.f) - e[1])
                        else: raise Unsupported("index from end")
                    else: pe = ("i", e[1])
                elif e[0] == "s": raise Unsupported("subslice")
                else: pe = (e[0], e[1])
                if val is not None: val = self.get1(val, pe)
                elif isinstance(cur, Ref): cur = Ref(cur.cell, cur.path + (pe,))
                else: cur = self.map_ref(cur, pe)
        return ("val", val) if val is not None else ("ref", cur)
    def map_ref(self, r, pe):
        if isinstance(r, Ref): return Ref(r.cell, r.path + (pe,))
        return Ite(r.g, self.map_ref(r.a, pe), self.map_ref(r.b, pe))
    def byte_at(self, s, i):
        t = s.t
        if hasattr(t, "byte"): return t.byte(i)
        if isinstance(t, str) and not is_z(i):
            b = t if self.bytes_mode else t.encode().decode("latin-1")
            return ord(b[i]) if i < len(b) else UNDEF
        if not self.bytes_mode: raise Unsupported("byte access to a string in character mode")
        return z3.StrToCode(z3.SubString(st_(t), zi(i), 1))
    def read(self, st, fr, p):
        if len(p) == 1:
            v = st.mem.get((fr.fid, p[0]), UNDEF)
            return self.expand(v) if isinstance(v, Lazy) else v
        k, x = self.place(st, fr, p)
        v = x if k == "val" else self.load(st, x)
        return self.expand(v) if isinstance(v, Lazy) else v
    def write(self, st, fr, p, v):
        if len(p) == 1:
            st.mem[(fr.fid, p[0])] = v
            return
        k, x = self.place(st, fr, p)
        if k == "val":
            raise Unsupported("write to a value place")
        self.store(st, x, v)
    def operand(self, st, fr, o):
        if o[0] == "k": return self.konst(fr.prog, o)
        return self.read(st, fr, o[1])
    def konst(self, prog, o):
        v = o[2]
        return self.decode(prog, v, o[1])
    def decode(self, prog, v, ty=None):
        k = v[0]
        if k in ("bool", "int", "char"): return v[1]
        if k == "str": 
            return Str(v[1].encode().decode("latin-1") if self.bytes_mode else v[1])
        if k == "zst":
            t = prog.types[ty] if ty is not None else ("x",)
            return Clo(ty, (), prog)
        if k == "tuple": return Tup([self.decode(prog, x) for x in v[1]])
        if k == "array": return Arr([self.decode(prog, x) for x in v[1]])
        if k == "adt":
            t = prog.types[v[1]]
            if t[1] in ("std::string::String",): return Str("")
            if t[1] == "std::vec::Vec": return Vec(())
            fs = t[4][v[2]][2] if t[4] else []
            return Adt(v[1], v[2], [self.decode(prog, x, fs[i][1] if i < len(fs) else None) for i, x in enumerate(v[3])])
        if k == "ref":
            c = ("K", id(v))
            if c not in self.consts: self.consts[c] = self.decode(prog, v[1], v[2])
            return Ref(c)
        if k == "refslice":
            c = ("K", id(v))
            if c not in self.consts: self.consts[c] = Arr([self.decode(prog, x, v[2]) for x in v[1]])
            return Ref(c)
        if k == "fnptr": return Opq("fnptr", v[1])
        if k == "fbits": return Opq("float", v[1])
        return Opq("const", str(v[1]))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dst_ty):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref" or k == "reborrow":
            kk, x = self.place(st, fr, r[2] if k == "ref" else r[1])
            if kk == "val":
                if isinstance(x, (Str, Opq, Clo)) or x is UNDEF: return x
                # value without an address: give it a cell
                return self.alloc(st, x)
            return x
        if k == "discr": return self.discr(self.read(st, fr, r[1]), fr.prog)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            h = r[1]
            if h[0] == "tuple": return Tup(ops)
            if h[0] == "array": return Arr(ops)
            if h[0] == "adt":
                t = fr.prog.types[h[1]]
                if h[3] is not None: return Adt(h[1], h[2], ops)  # union
                return Adt(h[1], h[2], ops)
            if h[0] == "closure": return Clo(h[1], ops, fr.prog)
            if h[0] == "coroutine": return Co(h[1], 0, ops, {}, fr.prog)
            if h[0] == "rawptr": return ops[0]
            raise Unsupported(f"aggregate {h}")
        if k == "bin": return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), fr, r, dst_ty)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)): return Not(v)
                if not is_z(v):
                    t = fr.prog.types[dst_ty]
                    return (~v) & ((1 << t[1]) - 1) if t[0] == "int" and not t[2] else ~v
                raise Unsupported("bitwise not")
            if r[1] == "Neg": return -v if not isinstance(v, V) else Opq("neg", v)
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            raise Unsupported(f"unop {r[1]}")
        if k == "cast":
            v = self.operand(st, fr, r[2])
            ck = r[1]
            if ck == "IntToInt":
                t = fr.prog.types[r[3]]
                if isinstance(v, bool): v = int(v)
                elif is_z(v) and z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if isinstance(v, Adt): v = self.discr(v, fr.prog)
                if is_bv(v):
                    w = {"int": t[1] if t[0] == "int" else 0, "char": 32}.get(t[0], 0)
                    if w == v.size() or (w == 64 and v.size() not in (8, 16, 32)): return v
                    if w in (16, 32) and v.size() not in (8, 16, 32): return v          # positions stay small
                    if w in (8, 16, 32) and v.size() in (8, 16, 32):
                        return z3.ZeroExt(w - v.size(), v) if w > v.size() else z3.Extract(w - 1, 0, v)
                    raise Unsupported("cast of a bit-vector")
                if t[0] == "int":
                    return self.wrap(v, t[1], t[2])
                return v
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype"):
                if ck == "Transmute" and isinstance(v, (Ref, Str, Ite, Opq)): return v
                if ck == "Transmute":
                    t = fr.prog.types[r[3]]
                    if t[0] in ("int", "char") and not isinstance(v, V): return v
                    if t[0] == "ref" or t[0] == "ptr": return v
                    if isinstance(v, Tup) and len(v.f) == 1: return v.f[0]
                    if isinstance(v, Adt) and len(v.f) == 1: return v
                    return v
                return v
            raise Unsupported(f"cast {ck}")
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 256: raise Unsupported("repeat")
            return Arr([v] * r[2])
        raise Unsupported(f"rvalue {k} {str(r)[:80]}")
    def wrap(self, v, bits, signed):
        lo, hi = int_range(bits, signed)
        if not is_z(v):
            m = 1 << bits
            v %= m
            return v - m if signed and v > hi else v
        s = z3.simplify(v)
        if z3.is_int_value(s): return self.wrap(s.as_long(), bits, signed)
        m = 1 << bits
        if signed:
            w = v % m
            return z3.If(z3.And(v >= lo, v <= hi), v, z3.If(w > hi, w - m, w))
        return z3.If(z3.And(v >= lo, v <= hi), v, v % m)
    def length(self, st, v):
        x = v
        if isinstance(x, Lazy): x = self.expand(x)
        if isinstance(x, (Ref, Ite)): x = self.deref_all(st, x)
        if isinstance(x, Arr): return len(x.f)
        if isinstance(x, Vec): return self.veclen(x)
        if isinstance(x, Str): return self.bytelen(x)
        if isinstance(x, Opq) and x.tag == "bytes": return self.bytelen(x.args[0])
        if isinstance(x, Ite): return ite(x.g, self.length(st, x.a), self.length(st, x.b))
        raise Unsupported(f"length of {type(x).__name__}")
    def veclen(self, v):
        n = 0; terms = []
        for g, _ in v.e:
            if is_z(g): terms.append(z3.If(g, z3.IntVal(1), z3.IntVal(0)))
            elif g: n += 1
        if not terms: return n
        return z3.Sum(terms + [z3.IntVal(n)]) if n else (z3.Sum(terms) if len(terms) > 1 else terms[0])
    def bytelen(self, s):
        t = s.t
        if hasattr(t, "blen"): return t.blen()
        if isinstance(t, str):
            return len(t) if self.bytes_mode else len(t.encode())
        if self.bytes_mode: return z3.Length(t)
        import strs
        return strs.blen(self, t)
    def discr(self, v, prog):
        if isinstance(v, Lazy): v = self.expand(v)
        if isinstance(v, Ite): return ite(v.g, self.discr(v.a, prog), self.discr(v.b, prog))
        if isinstance(v, Adt):
            if v.ty is not None:
                t = prog.types[v.ty] if prog is not None else None
                vs = self.variants(v.ty, prog)
                if vs: return vs[v.v][1]
            return v.v
        if isinstance(v, Sum):
            vs = self.variants(v.ty, prog) if v.ty is not None else None
            if vs and any(x[1] != i for i, x in enumerate(vs)):
                r = z3.IntVal(vs[0][1])
                for i, x in enumerate(vs[1:], 1): r = z3.If(zi(v.d) == i, z3.IntVal(x[1]), r)
                return r
            return v.d
        if isinstance(v, Co): return v.d
        if v is UNDEF: raise Unsupported("discriminant of an undefined value")
        raise Unsupported(f"discriminant of {type(v).__name__} {str(v)[:80]}")
    def variants(self, ty, prog):
        t = prog.types[ty]
        return t[4] if t[0] == "adt" and t[3] == "enum" else None
    def binop(self, op, a, b, fr, r, dst_ty):
        if isinstance(a, Lazy): a = self.expand(a)
        if isinstance(b, Lazy): b = self.expand(b)
        if isinstance(a, Ite): return ite(a.g, self.binop(op, a.a, b, fr, r, dst_ty), self.binop(op, a.b, b, fr, r, dst_ty))
        if isinstance(b, Ite): return ite(b.g, self.binop(op, a, b.a, fr, r, dst_ty), self.binop(op, a, b.b, fr, r, dst_ty))
        if isinstance(a, V) or isinstance(b, V):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                return (a == b) == (op == "Eq")
            if isinstance(a, (Ref, Str)) and isinstance(b, int):     # address checks: references are aligned and not null
                if op == "BitAnd": return 0
                if op in ("Eq", "Ne"): return op == "Ne"
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return self.uf_bool(op, a, b)
            raise Unsupported(f"binop {op} on {type(a).__name__},{type(b).__name__}")
        isb = isinstance(a, bool) or (is_z(a) and z3.is_bool(a))
        if is_bv(a) or is_bv(b):
            try: return self.bvop(op, a, b, fr, dst_ty)
            except OutOfRange as e: raise Unsupported(f"positions: {e}")
        if op == "Eq": return Eq(a, b)
        if op == "Ne": return Not(Eq(a, b))
        if isb:
            if op == "BitAnd": return And(a, b)
            if op == "BitOr": return Or(a, b)
            if op == "BitXor": return Not(Eq(a, b))
            a = ite(a, 1, 0) if is_z(a) else int(a); b = ite(b, 1, 0) if is_z(b) else int(b)
        if op == "Lt": return a < b
        if op == "Le": return a <= b
        if op == "Gt": return a > b
        if op == "Ge": return a >= b
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            t = fr.prog.types[fr.prog.types[dst_ty][1][0]]
            lo, hi = int_range(t[1], t[2])
            v = a + b if op[0] == "A" else (a - b if op[0] == "S" else a * b)
            if not is_z(v): return Tup((self.wrap(v, t[1], t[2]), not (lo <= v <= hi)))
            return Tup((v, z3.Or(v < lo, v > hi)))      # value read only when the flag is false
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            v = a + b if op[0] == "A" else (a - b if op[0] == "S" else a * b)
            t = fr.prog.types[dst_ty]
            if op.endswith("Unchecked"): return v
            return self.wrap(v, t[1], t[2])
        if op in ("Div", "Rem"):
            if not is_z(a) and not is_z(b):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "Div" else a - q * b
            return zi(a) / zi(b) if op == "Div" else zi(a) % zi(b)   # unsigned use only
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if not is_z(a) and not is_z(b):
                if op == "BitAnd": return a & b
                if op == "BitOr": return a | b
                if op == "BitXor": return a ^ b
                t = fr.prog.types[dst_ty]
                if op.startswith("Shl"): return self.wrap(a << (b % t[1]), t[1], t[2])
                return a >> (b % t[1])
            if op == "BitAnd" and not is_z(b) and (b & (b + 1)) == 0: return a % (b + 1)
            if op.startswith("Shr") and not is_z(b): return a / z3.IntVal(1 << b)
            raise Unsupported(f"bit operation {op} on symbolic integers")
        if op == "Cmp":
            # Ordering: -1, 0, 1 as variant index 0, 1, 2
            return Sum(dst_ty, ite(a < b, 0, ite(Eq(a, b), 1, 2)), {0: (), 1: (), 2: ()})
        if op == "Offset": raise Unsupported("pointer arithmetic")
        raise Unsupported(f"binop {op}")
    def bvop(self, op, a, b, fr, dst_ty):
        """bit-vector operands: bytes and characters are exact, positions (usize) never reach their width"""
        w = a.size() if is_bv(a) else b.size()
        if op == "Eq": return Eq(a, b)
        if op == "Ne": return Not(Eq(a, b))
        cmpv = lambda o, x, y: {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[o]
        if op in ("Lt", "Le", "Gt", "Ge"):
            if isinstance(b, int) and b >= (1 << w): return op in ("Lt", "Le")
            if isinstance(a, int) and a >= (1 << w): return op in ("Gt", "Ge")
            if isinstance(b, int) and b < 0 and w in (8, 16, 32): return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]      # a signed comparison
            if isinstance(a, int) and a < 0 and w in (8, 16, 32): return {"Lt": b > a, "Le": b >= a, "Gt": b < a, "Ge": b <= a}[op]
            x, y = tobv(a, w), tobv(b, w)
            return {"Lt": z3.ULT, "Le": z3.ULE, "Gt": z3.UGT, "Ge": z3.UGE}[op](x, y)
        if op == "Cmp":
            x, y = tobv(a, w), tobv(b, w)
            return Sum(dst_ty, ite(z3.ULT(x, y), 0, ite(Eq(x, y), 1, 2)), {0: (), 1: (), 2: ()})
        if op.startswith("Sh"): b = b if not is_bv(b) else b
        x, y = tobv(a, w), tobv(b, w)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        pos = w not in (8, 16, 32)
        r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: z3.UDiv(x, y), "Rem": lambda: z3.URem(x, y),
             "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: z3.LShR(x, y)}.get(base)
        if r is None: raise Unsupported(f"binop {op} on bit-vectors")
        if pos and base in ("Mul", "Shl", "BitXor"): raise Unsupported(f"{op} of positions")
        if pos and op == "Sub" and fr.fn.krate not in ("core", "alloc", "std"): raise Unsupported("wrapping difference of positions")
        r = linadd(a, b, 1 if base == "Add" else -1, w) if pos and base in ("Add", "Sub") else r()
        if op.endswith("WithOverflow"):
            if base == "Sub": o = z3.ULT(x, y)
            elif pos: o = False
            elif base == "Add": o = z3.ULT(r, x)
            else: o = Not(z3.BVMulNoOverflow(x, y, False))
            return Tup((r, o))
        return r
    def uf_bool(self, op, *args):
        """uninterpreted boolean of opaque arguments, a function of them"""
        for o in self.memo.get(("ufb", op), []):
            if all(same(x, y) for x, y in zip(o[0], args)): return o[1]
        b = self.fresh("bool", f"uf.{op}")
        self.memo.setdefault(("ufb", op), []).append((args, b))
        return b

    # ------------------------------------------------------------ execution
    def call(self, st, fn, args, where=None):
        """run fn on args from st: [(state, return value)]"""
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the encoding exhausted")
        h = self.hooks.get(fn.path) or self.intr.get(fn.path)
        if h is None: h = self.by_norm(fn.path)
        if h is None and (fn.path.startswith("<") or not fn.body):
            h = self.intr_trait(fn)
        if h is not None:
            res = h(self, st, fn, args, where)
            if res is not NotImplemented:
                self.contracts[fn.path] = self.contracts.get(fn.path, 0) + 1
                if isinstance(res, list): return res
                return [(st, res)]
        if fn.ctor is not None:
            return [(st, Adt(fn.ctor[0], fn.ctor[1], args))]
        if fn.kind == "closure_once":
            target = fn.prog.fns[fn.extra]
            tup = args[1]
            r = self.alloc(st, args[0])
            return self.call(st, target, [r] + list(tup.f), where)
        if fn.kind == "fnptrshim":
            return self.call_value(st, Clo(fn.extra, (), fn.prog), list(self.expand(args[1]).f), where)
        if fn.kind == "cloneshim":
            return [(st, self.load(st, args[0]))]
        if not fn.body:
            raise Unsupported(f"no body for {fn.kind} {fn.full}")
        return self.run(st, fn, args)
    def by_norm(self, path):
        """a contract whose path differs in lifetimes only"""
        m = self.memo.get("normpaths")
        if m is None:
            m = self.memo["normpaths"] = {normpath(k): v for k, v in self.intr.items()}
        return m.get(normpath(path))
    def intr_trait(self, fn):
        # clone/eq of opaque external types and the like are looked up by pattern in the intrinsics
        for pat, h in self.intr.get("__patterns__", ()):
            if pat(fn): return h
        return None

    def call_value(self, st, f, args, where=None):
        """call a closure or function value with already untupled args"""
        if isinstance(f, Lazy): f = self.expand(f)
        self_ref = None
        if isinstance(f, Ref):
            self_ref = f
            f = self.deref_all(st, f)
        if isinstance(f, Ite):
            out = []
            for s2, b in self.branch(st, f.g):
                out += self.call_value(s2, f.a if b else f.b, args, where)
            return out
        if isinstance(f, Opq) and f.tag == "fnptr":
            return self.call(st, self.prog.fns[f.args[0]], args, where)
        if not isinstance(f, Clo): raise Unsupported(f"call of {type(f).__name__} {str(f)[:60]}")
        t = f.prog.types[f.ty]
        if t[0] == "fndef":
            if not isinstance(t[2], int): raise Unsupported(f"call of unresolved {t[2]}")
            return self.call(st, f.prog.fns[t[2]], args, where)
        if t[0] == "closure":
            fn = f.prog.fns[t[3]]
            lt = fn.prog.types[fn.locals[1]]
            if lt[0] == "ref":
                if self_ref is None: self_ref = self.alloc(st, f)
                return self.call(st, fn, [self_ref] + args, where)
            return self.call(st, fn, [f] + args, where)
        raise Unsupported(f"call of {t[0]}")

    def run(self, st, fn, args):
        self.fid += 1
        self.depth += 1
        if self.depth > 60: raise Unsupported("call depth")
        self.encoded[fn.full] = self.encoded.get(fn.full, 0) + 1
        fr = Frame(self.fid, fn)
        st = st.copy()
        for i, a in enumerate(args): st.mem[(fr.fid, i + 1)] = a
        order = fn.order
        work = {0: [st]}
        results = []
        try:
            while work:
                b = min(work, key=lambda x: order[x])
                sts = work.pop(b)
                if self.merge and len(sts) > 1: sts = [self.merge_states(sts)]
                for s in sts:
                    self.nblocks += 1
                    try:
                        outs = self.block(s, fr, b, results)
                    except Unsupported as e:
                        self.note_unsupported(s, str(e), fn, b)
                        continue
                    self.nedges += len(outs)
                    for s2, nb in outs:
                        if nb in order and order[nb] <= order[b]:
                            # back edge: count it
                            key = (fr.fid, nb)
                            c = s2.cnt.get(key, 0) + 1
                            if c > self.loop_bound:
                                self.truncated.append((s2.pc, f"{fn.full} loop at bb{nb}")); continue
                            s2.cnt[key] = c
                        work.setdefault(nb, []).append(s2)
                if len(results) + sum(len(v) for v in work.values()) > self.max_paths:
                    raise Unsupported("too many paths")
        finally:
            self.depth -= 1
        # forget this frame
        fid = fr.fid
        outs = []
        for s, v in results:
            for k in [k for k in s.mem if k[0] == fid]: del s.mem[k]
            for k in [k for k in s.cnt if k[0] == fid]: del s.cnt[k]
            outs.append((s, v))
        if self.merge and len(outs) > 1:
            RET = ("ret", fid)
            for s, v in outs: s.mem[RET] = v
            m = self.merge_states([s for s, _ in outs])
            v = m.mem.pop(RET)
            outs = [(m, v)]
        return outs
    def note_unsupported(self, s, msg, fn, b):
        t = fn.blocks[b][1]
        ln = t[5][1] if t[0] in ("call", "assert") else fn.span[1]
        fl = fn.prog.files[t[5][0]] if t[0] in ("call", "assert") else fn.prog.files[fn.span[0]]
        self.unsupported.append((s.pc, msg, f"{fl}:{ln}"))

    def merge_states(self, sts):
        # pairwise, in a balanced fashion keeping order
        while len(sts) > 1:
            nxt = []
            for i in range(0, len(sts) - 1, 2): nxt.append(self.merge2(sts[i], sts[i + 1]))
            if len(sts) % 2: nxt.append(sts[-1])
            sts = nxt
        return sts[0]
    def merge2(self, a, b):
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and (pa[n] is pb[n] or (is_z(pa[n]) and is_z(pb[n]) and pa[n].eq(pb[n]))): n += 1
        sa, sb = pa[n:], pb[n:]
        ga, gb = And(*sa), And(*sb)
        # choose the shorter condition as the merge guard
        if is_z(gb) and (not is_z(ga) or len(sb) < len(sa)): g = Not(gb)
        else: g = ga
        o = Or(ga, gb)
        pc = pa[:n] + ((o,) if is_z(o) else ())
        m = State({}, pc, {})
        am, bm = a.mem, b.mem
        mem = m.mem
        for k, v in am.items():
            if k in bm:
                w = bm[k]
                mem[k] = v if v is w else self.mergev(g, v, w)
            else: mem[k] = v
        for k, w in bm.items():
            if k not in am: mem[k] = w
        for k in set(a.cnt) | set(b.cnt): m.cnt[k] = max(a.cnt.get(k, 0), b.cnt.get(k, 0))
        return m
    def mergev(self, g, v, w):
        if isinstance(v, Lazy) and not isinstance(w, Lazy): v = self.expand(v)
        if isinstance(w, Lazy) and not isinstance(v, Lazy): w = self.expand(w)
        return ite(g, v, w)

    def block(self, st, fr, b, results):
        fn = fr.fn
        stmts, term = fn.blocks[b]
        mem = st.mem
        for s in stmts:
            self.stmts += 1
            h = s[0]
            if isinstance(h, str):
                if h == "setd":
                    self.set_discr(st, fr, s[1], s[2])
                elif h == "assume": pass
                else: raise Unsupported(h)
                continue
            dst_ty = fn.locals[h[0]] if len(h) == 1 else None
            if dst_ty is None and s[1][0] in ("bin", "un"): dst_ty = self.place_ty(fr, h)
            v = self.rvalue(st, fr, s[1], dst_ty)
            self.write(st, fr, h, v)
        k = term[0]
        if k == "goto": return [(st, term[1])]
        if k == "ret":
            results.append((st, mem.get((fr.fid, 0), UNIT)))
            return []
        if k == "switch":
            v = self.operand(st, fr, term[1])
            return self.switch(st, v, term[2], term[3])
        if k == "call": return self.do_call(st, fr, term)
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if not term[2]: c = Not(c)
            out = []
            for s2, ok in self.branch(st, c):
                if ok: out.append((s2, term[3]))
                else: self.panic(s2, term[4][:160], fr, term[5])
            return out
        if k == "unreach": return []
        raise Unsupported(f"terminator {term}")
    def place_ty(self, fr, p):
        t = None
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "f": t = e[2]
            elif e == "*" : 
                base = fr.fn.locals[p[0]] if t is None else t
                tt = fr.prog.types[base]
                t = tt[1] if tt[0] in ("ref", "ptr") else None
        return t
    def panic(self, st, msg, fr, line=None):
        fl = fr.fn.prog.files
        where = f"{fl[line[0]]}:{line[1]}" if line else fr.fn.where
        self.panics.append(Panic(st.pc, msg, where))
    def set_discr(self, st, fr, p, vi):
        v = self.read(st, fr, p)
        if isinstance(v, Co): n = Co(v.ty, vi, v.up, v.alts, v.prog)
        elif isinstance(v, Adt): n = Adt(v.ty, vi, v.f if v.v == vi else ())
        elif isinstance(v, Sum): n = Adt(v.ty, vi, v.alts.get(vi, ()))
        elif v is UNDEF: n = Adt(None, vi, ())
        else: raise Unsupported("set discriminant")
        self.write(st, fr, p, n)
    def switch(self, st, v, targets, other):
        if isinstance(v, bool): v = int(v)
        if not is_z(v):
            if isinstance(v, V):
                if isinstance(v, Ite):
                    out = []
                    for s2, b in self.branch(st, v.g): out += self.switch(s2, v.a if b else v.b, targets, other)
                    return out
                raise Unsupported(f"switch on {type(v).__name__} {str(v)[:60]}")
            for val, b in targets:
                if val == v: return [(st, b)]
            return [(st, other)]
        if z3.is_bool(v):
            out = []
            for s2, b in self.branch(st, v):
                tgt = other
                for val, bb in targets:
                    if val == int(b): tgt = bb
                out.append((s2, tgt))
            return out
        sv = z3.simplify(v)
        if z3.is_int_value(sv): return self.switch(st, sv.as_long(), targets, other)
        out = []
        # targets that lead to the same block share a branch
        byb = {}
        for val, b in targets: byb.setdefault(b, []).append(val)
        rest = []
        for b, vals in byb.items():
            c = Or(*[Eq(v, x) for x in vals])
            s2 = self.fork(st, c)
            if s2 is not None: out.append((s2 if s2 is not st else st.copy(), b))
            rest += vals
        s2 = self.fork(st, And(*[Not(Eq(v, x)) for x in rest]))
        if s2 is not None: out.append((s2 if s2 is not st else st.copy(), other))
        return out

    def do_call(self, st, fr, term):
        _, cal, aops, dst, tgt, line = term
        args = [self.operand(st, fr, o) for o in aops]
        where = (fr, line)
        if cal[0] == "fn":
            target = cal[1]
            if isinstance(target, int):
                fn = fr.prog.fns[target]
                # closure bodies reached through Fn* traits take untupled arguments
                if fn.path in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and fn.kind == "item" and not fn.body:
                    res = self.call_value(st, args[0], list(self.deref_all(st, args[1]).f), where)
                elif cal[2] in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and fn.kind == "item":
                    tup = self.deref_all(st, args[1])
                    res = self.call_value(st, args[0], list(tup.f), where)
                else:
                    res = self.call(st, fn, args, where)
            else:
                h = self.hooks.get("unres:" + target[1])
                if h is None: raise Unsupported(f"unresolved call {target[1]}")
                self.contracts[target[1]] = self.contracts.get(target[1], 0) + 1
                res = h(self, st, cal, args, where)
                if not isinstance(res, list): res = [(st, res)]
        else:
            f = self.operand(st, fr, cal[1])
            res = self.call_value(st, f, args, where)
        out = []
        for s2, v in res:
            if tgt is None:
                continue
            if s2 is st and len(res) > 1: s2 = st.copy()
            self.write(s2, fr, dst, v)
            out.append((s2, tgt))
        return out

_np = {}
def normpath(p):
    r = _np.get(p)
    if r is None:
        q = re.sub(r"'[a-z_]+(, | )?", "", p)
        r = _np[p] = q.replace("<>", "")
    return r
class Frame:
    __slots__ = ("fid", "fn", "prog")
    def __init__(self, fid, fn):
        self.fid, self.fn, self.prog = fid, fn, fn.prog

def st_(t): return sval(t) if isinstance(t, str) else t
