"""Concatenations of literals and string constants, with cut points kept symbolic (bytes mode)."""
import z3
from val import *
import val

class Rope:
    """parts: Python str literals (non-empty, never two in a row) and z3 String constants"""
    __slots__ = ("parts", "_z")
    def __init__(self, parts):
        o = []
        for p in parts:
            if isinstance(p, Rope): 
                for q in p.parts: _app(o, q)
            else: _app(o, p)
        self.parts = tuple(o); self._z = None
    def z(self):
        if self._z is None:
            ps = [sval(p) if isinstance(p, str) else p for p in self.parts]
            self._z = sval("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)
        return self._z
    def length(self):
        c = sum(len(p) for p in self.parts if isinstance(p, str))
        ts = [z3.Length(p) for p in self.parts if not isinstance(p, str)]
        if not ts: return c
        if c: ts.append(z3.IntVal(c))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def merge(self, g, o):
        if not isinstance(o, Rope) or len(o.parts) != len(self.parts): return None
        out = []
        for p, q in zip(self.parts, o.parts):
            if same(p, q): out.append(p); continue
            if isinstance(p, str) or isinstance(q, str) or is_z(p) or is_z(q): return None
            m = p.merge(g, q)
            if m is None: return None
            out.append(m)
        return Rope(out)
    def symbolic(self): return any(not isinstance(p, str) and not is_z(p) for p in self.parts)
    def __eq__(self, o): return isinstance(o, Rope) and len(o.parts) == len(self.parts) and all(same(a, b) for a, b in zip(self.parts, o.parts))
    def __hash__(self): return hash(len(self.parts))
    def __repr__(self): return "Rope(" + " ".join(repr(p) for p in self.parts) + ")"
def _app(o, p):
    if isinstance(p, str):
        if p == "": return
        if o and isinstance(o[-1], str): o[-1] += p; return
    o.append(p)
def mk(parts):
    r = Rope(parts)
    if not r.parts: return ""
    if len(r.parts) == 1: return r.parts[0]
    return r
def st_of(t):
    if isinstance(t, str): return sval(t)
    if isinstance(t, Rope): return t.z()
    return t
