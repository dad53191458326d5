"""Loading of the MIR dumps written by mirdump."""
import json, os

class Fn:
    __slots__ = ("idx", "path", "kind", "krate", "targs", "body", "span", "extra", "full", "poly",
                 "argc", "locals", "blocks", "spread", "ctor", "_order", "prog")
    def __init__(self, idx, rec, prog):
        self.idx = idx
        self.prog = prog
        (self.path, self.kind, self.krate, self.targs, body, self.span, self.extra, self.full, self.poly) = rec
        self.body = body is not None
        self.ctor = None
        self._order = None
        if body is not None:
            if body[0] == "ctor":
                self.ctor = (body[1], body[2]); self.body = False
            else:
                self.argc, self.locals, self.blocks, self.spread = body
    def __repr__(self):
        return f"<fn {self.full}>"
    @property
    def where(self):
        return f"{self.prog.files[self.span[0]]}:{self.span[1]}"

    # weak topological order of the blocks: a loop's body comes before what follows the loop
    @property
    def order(self):
        if self._order is None:
            self._order = wto(self)
        return self._order

def succs(term):
    k = term[0]
    if k == "goto": return [term[1]]
    if k == "switch": return [b for _, b in term[2]] + [term[3]]
    if k == "call": return [] if term[4] is None else [term[4]]
    if k == "assert": return [term[3]]
    return []

def wto(fn):
    n = len(fn.blocks)
    adj = [succs(b[1]) if b else [] for b in fn.blocks]
    order = {}
    pos = [0]
    import sys
    sys.setrecursionlimit(100000)
    def sccs(nodes):
        nodes = set(nodes)
        index, low, onst, st, out, ctr = {}, {}, set(), [], [], [0]
        for root in sorted(nodes):
            if root in index: continue
            work = [(root, iter([x for x in adj[root] if x in nodes]))]
            index[root] = low[root] = ctr[0]; ctr[0] += 1; st.append(root); onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]; ctr[0] += 1; st.append(w); onst.add(w)
                        work.append((w, iter([x for x in adj[w] if x in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop(); onst.discard(w); comp.append(w)
                        if w == v: break
                    out.append(comp)
        out.reverse()     # topological
        return out
    # reachable from 0
    reach, stack = set(), [0]
    while stack:
        b = stack.pop()
        if b in reach: continue
        reach.add(b)
        stack.extend(adj[b])
    preds = {b: [] for b in reach}
    for b in reach:
        for x in adj[b]: preds[x].append(b)
    def go(nodes, entry_from):
        for comp in sccs(nodes):
            cs = set(comp)
            if len(comp) == 1 and comp[0] not in adj[comp[0]]:
                order[comp[0]] = pos[0]; pos[0] += 1
            else:
                heads = [b for b in comp if b == 0 or any(p not in cs for p in preds[b])]
                h = heads[0] if heads else comp[0]
                order[h] = pos[0]; pos[0] += 1
                go([b for b in comp if b != h], None)
    go(reach, None)
    return order

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = os.path.basename(path)
        self.types = d["types"]
        self.files = d["files"]
        self.fns = [Fn(i, r, self) for i, r in enumerate(d["fns"])]
        self.roots = [self.fns[i] for i in d["roots"]]
        self.bypath = {}
        for f in self.fns:
            self.bypath.setdefault(f.path, []).append(f)
        self._tyname = {}
    def fn(self, path):
        """the unique root function with this path"""
        c = [f for f in self.roots if f.path == path]
        if not c: c = [f for f in self.bypath.get(path, []) if f.body]
        return c[0] if c else None
    def ty(self, i): return self.types[i]
    def tyname(self, i):
        r = self._tyname.get(i)
        if r is None:
            self._tyname[i] = "?rec"
            r = self._tyname[i] = self._tn(i)
        return r
    def _tn(self, i):
        t = self.types[i]; k = t[0]
        if k in ("bool", "char", "str", "never"): return k
        if k == "int": return ("i" if t[2] else "u") + str(t[1])
        if k == "float": return f"f{t[1]}"
        if k == "ref": return "&" + ("mut " if t[2] else "") + self.tyname(t[1])
        if k == "ptr": return "*" + self.tyname(t[1])
        if k == "slice": return f"[{self.tyname(t[1])}]"
        if k == "array": return f"[{self.tyname(t[1])};{t[2]}]"
        if k == "tuple": return "(" + ",".join(self.tyname(x) for x in t[1]) + ")"
        if k == "adt":
            return t[1] + ("<" + ",".join(self.tyname(x) for x in t[2]) + ">" if t[2] else "")
        if k == "fndef": return f"fn {t[1]}"
        if k in ("closure", "coroutine"): return f"{k} {t[1]}"
        return str(t[1]) if len(t) > 1 else k

def pp(fn, out=None):
    """human-readable listing, for debugging"""
    p = fn.prog
    def place(x):
        s = f"_{x[0]}"
        for e in x[1:]:
            if e == "*": s = f"(*{s})"
            elif e == "=": s += "="
            elif e[0] == "f": s += f".{e[1]}"
            elif e[0] == "i": s += f"[_{e[1]}]"
            elif e[0] == "d": s += f" as v{e[1]}"
            else: s += str(e)
        return s
    def op(o):
        if o[0] in "cm" and o[0] != "k": return place(o[1])
        return f"const {json.dumps(o[2])[:80]}:{p.tyname(o[1]) if o[1] is not None else ''}"
    def rv(r):
        k = r[0]
        if k == "use": return op(r[1])
        if k == "ref": return ("&mut " if r[1] else "&") + place(r[2])
        if k == "cast": return f"{op(r[2])} as {p.tyname(r[3])} ({r[1]})"
        if k == "bin": return f"{r[1]}({op(r[2])}, {op(r[3])})"
        if k == "un": return f"{r[1]}({op(r[2])})"
        if k == "discr": return f"discr({place(r[1])})"
        if k == "agg":
            h = r[1]
            nm = p.tyname(h[1]) + f"::v{h[2]}" if h[0] == "adt" else (p.tyname(h[1]) if len(h) > 1 else h[0])
            return f"{nm}{{{', '.join(op(o) for o in r[2])}}}"
        return str(r)
    print(f"fn {fn.full}  argc={fn.argc} [{fn.where}]")
    for i, b in enumerate(fn.blocks):
        if not b: continue
        print(f" bb{i} (#{fn.order.get(i)}):")
        for s in b[0]:
            if isinstance(s[0], str): print("   ", s)
            else: print(f"    {place(s[0])} = {rv(s[1])}")
        t = b[1]
        if t[0] == "call":
            c = t[1]
            nm = (p.fns[c[1]].full if isinstance(c[1], int) else str(c[1])) if c[0] == "fn" else op(c[1])
            print(f"    {place(t[3])} = {nm}({', '.join(op(o) for o in t[2])}) -> bb{t[4]}  L{t[5][1]}")
        elif t[0] == "switch": print(f"    switch {op(t[1])} {t[2]} else bb{t[3]}")
        elif t[0] == "assert": print(f"    assert {op(t[1])}=={t[2]} -> bb{t[3]} {t[4][:60]}")
        else: print("   ", t)

if __name__ == "__main__":
    import sys
    P = Prog(sys.argv[1])
    for f in P.fns:
        if sys.argv[2] in f.full and f.body: pp(f)
