"""Shared parts of the checks: solver queries, native replay, evidence, findings."""
import os, sys, json, time, subprocess, shutil, hashlib, traceback, multiprocessing
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import z3
import build
from val import *

# Boolean/integer abstraction: string lengths become integers, other string atoms become booleans.
# What is unsatisfiable there is unsatisfiable; it is tried first because it costs next to nothing.
def abstract(x, t):
    memo = x.memo.setdefault("abstract", {})
    def go(root):
        stack = [root]
        while stack:
            t = stack[-1]
            k = t.get_id()
            if k in memo: stack.pop(); continue
            ch = t.children()
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
                v = z3.Int(f"len#{k}"); memo[k] = (v, t); x.memo.setdefault("abslen", []).append(v >= 0); stack.pop(); continue
            if any(z3.is_seq(c) or z3.is_re(c) for c in ch) and not z3.is_seq(t):
                v = z3.Bool(f"atom#{k}") if z3.is_bool(t) else z3.Int(f"atom#{k}")
                if z3.is_bool(t) or z3.is_int(t): memo[k] = (v, t); stack.pop(); continue
            todo = [c for c in ch if c.get_id() not in memo]
            if todo: stack += todo; continue
            n = [memo[c.get_id()][0] for c in ch]
            r = t if all(a is b for a, b in zip(n, ch)) or all(a.eq(b) for a, b in zip(n, ch)) else \
                z3.And(*n) if z3.is_and(t) else z3.Or(*n) if z3.is_or(t) else t.decl()(*n)
            memo[k] = (r, t); stack.pop()
        return memo[root.get_id()][0]
    return go(t)
def prove(x, cs, extra_axioms=(), timeout_ms=None):
    zs = [c for c in cs if is_z(c)]
    if zs and not any(c is False for c in cs) and x.merge:
        try:
            if not hasattr(x, "_abs"):
                x._abs = z3.Solver(); x._abs.set("timeout", 5000); x._nabs = 0; x._nlen = 0
            s = x._abs
            while x._nabs < len(x.axioms):
                s.add(abstract(x, x.axioms[x._nabs])); x._nabs += 1
            az = [abstract(x, c) for c in zs] + [abstract(x, a) for a in extra_axioms if is_z(a)]
            ls = x.memo.get("abslen", [])
            while x._nlen < len(ls): s.add(ls[x._nlen]); x._nlen += 1
            t0 = time.time(); s.push(); s.add(*az); x.queries += 1
            r = s.check(); s.pop(); x.solver_time += time.time() - t0
            if r == z3.unsat: return "unsat", None
        except z3.Z3Exception: pass
    return prove_full(x, cs, extra_axioms, timeout_ms)
def prove_full(x, cs, extra_axioms=(), timeout_ms=None):
    """are the constraints cs (a list; their conjunction) unsatisfiable under x's axioms?
    -> ('unsat', None) | ('sat', model) | ('unknown', reason)"""
    zs = []
    for c in cs:
        if not is_z(c):
            if not c: return "unsat", None
            continue
        zs.append(c)
    s = x.solver
    while x._nax < len(x.axioms):
        s.add(x.axioms[x._nax]); x._nax += 1
    t0 = time.time()
    s.push()
    if timeout_ms: s.set("timeout", timeout_ms)
    s.add(*zs); s.add(*[a for a in extra_axioms if is_z(a)])
    x.queries += 1
    r = s.check()
    m = s.model() if r == z3.sat else None
    why = s.reason_unknown() if r == z3.unknown else None
    s.pop()
    if timeout_ms: s.set("timeout", x.timeout_ms)
    x.solver_time += time.time() - t0
    return str(r), (m if m is not None else why)

# ------------------------------------------------------------------ model values
def mstr(m, t):
    """Python string of a z3 string term in a model"""
    v = m.eval(t, model_completion=True)
    return zstr(v)
def zstr(v):
    s = v.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})", lambda k: chr(int(k.group(1) or k.group(2), 16)), s)
def mint(m, t):
    if not is_z(t): return int(t)
    return m.eval(t, model_completion=True).as_long()
def mbool(m, t):
    if not is_z(t): return bool(t)
    return z3.is_true(m.eval(t, model_completion=True))

def rust_str(s):
    o = ['"']
    for c in s:
        n = ord(c)
        if c in '"\\': o.append("\\" + c)
        elif 0x20 <= n < 0x7f: o.append(c)
        elif 0xd800 <= n <= 0xdfff: raise ValueError("surrogate in a model string")
        else: o.append("\\u{%x}" % n)
    o.append('"')
    return "".join(o)

# ------------------------------------------------------------------ native replay
CARGO = """[package]
name = "replay"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
mx-message = { path = "%s" }
serde_json = "1"
quick-xml = { version = "*", features = ["serialize"] }
serde = "1"
%s
[profile.dev]
debug = false
opt-level = 0
incremental = false
[profile.dev.package."*"]
opt-level = 0
"""
def native(src, extra_deps="", args=(), stdin=None, timeout=600):
    """compile a program against /repo's current tree and run it: (returncode, stdout, stderr)"""
    import fcntl
    tag = "" if build.REPO == "/repo" else "-alt"
    d = os.path.join(build.BUILD, "replay" + tag)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(build.BUILD, "replay.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(os.path.join(d, "Cargo.toml"), "w").write(CARGO % (build.REPO, extra_deps))
        lock = os.path.join(build.REPO, "Cargo.lock")
        if os.path.exists(lock): shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        open(os.path.join(d, "src/main.rs"), "w").write(src)
        e = build.clean_env()
        e.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zthreads=8", CARGO_TARGET_DIR=os.path.join(build.BUILD, "replay-target" + tag))
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e, capture_output=True, text=True)
        if r.returncode: raise build.BuildError("replay does not build: " + r.stderr[-3000:])
        exe = os.path.join(d, f"replay.{os.getpid()}")
        shutil.copy(os.path.join(build.BUILD, f"replay-target{tag}/debug/replay"), exe)
    try: p = subprocess.run([exe, *args], input=stdin, capture_output=True, text=True, timeout=timeout, errors="surrogateescape")
    finally: os.unlink(exe)
    return p.returncode, p.stdout, p.stderr

def confirm_probes(C, cands, prelude="", extra_deps="", limit=40, per_kind=3):
    """cands: dicts with expr (a Rust expression of type serde_json::Value), expect (JSON value or a function
    of the observation that returns None when it is right, else what is wrong) and ident."""
    import collections
    per = collections.Counter(); sel = []
    for c in cands:
        k = json.dumps(c["ident"].get("what", c["ident"]), default=str)
        if per[k] < per_kind and len(sel) < limit: per[k] += 1; sel.append(c)
    if not sel: return
    src = "#![allow(unused)]\nuse serde_json::{json, Value};\n" + prelude + "\n" + "\n".join(f"fn t{i}() -> Value {{ {c['expr']} }}" for i, c in enumerate(sel)) + \
        "\nfn main() {\n    let ts: Vec<fn() -> Value> = vec![" + ", ".join(f"t{i}" for i in range(len(sel))) + """];
    std::panic::set_hook(Box::new(|_| {}));
    for (i, t) in ts.into_iter().enumerate() {
        let v = std::panic::catch_unwind(t).unwrap_or_else(|_| json!({"panic": true}));
        println!("{}", json!([i, v]));
    }
}
"""
    rc, out, err = native(src, extra_deps)
    got = {}
    for l in out.splitlines():
        try: r = json.loads(l); got[r[0]] = r[1]
        except Exception: pass
    for i, c in enumerate(sel):
        if i not in got:
            C.unconfirmed.append({**c["ident"], "note": f"no answer from the real code: {err[-200:]}"}); continue
        e = c["expect"]
        bad = e(got[i]) if callable(e) else None if got[i] == e else f"expected {json.dumps(e)[:300]}"
        if bad: C.violation(str(i), json.dumps({**c["ident"], "wrong": bad, "observed": got[i]}, indent=1) + "\n\n// program (probe t%d):\n" % i + src, {**c["ident"], "wrong": bad[:200], "observed": json.dumps(got[i])[:200]})
        else: C.unconfirmed.append({**c["ident"], "observed": json.dumps(got[i])[:120]})

def veq(x, a, b, st=None):
    """structural equality of two values as a z3 Bool (or Python bool)"""
    import intr
    if isinstance(a, Lazy): a = x.expand(a)
    if isinstance(b, Lazy): b = x.expand(b)
    if a is b or same(a, b): return True
    if isinstance(a, Ite): return If(a.g, zb(veq(x, a.a, b, st)), zb(veq(x, a.b, b, st)))
    if isinstance(b, Ite): return If(b.g, zb(veq(x, a, b.a, st)), zb(veq(x, a, b.b, st)))
    if st is not None and isinstance(a, Ref) and isinstance(b, Ref): return veq(x, x.load(st, a), x.load(st, b), st)
    if isinstance(a, Str) and isinstance(b, Str): return intr.seq(x, a, b)
    if isinstance(a, (Adt, Sum)) and isinstance(b, (Adt, Sum)):
        da, aa = (a.v, {a.v: a.f}) if isinstance(a, Adt) else (a.d, a.alts)
        db, ba = (b.v, {b.v: b.f}) if isinstance(b, Adt) else (b.d, b.alts)
        cs = [Eq(da, db)]
        for k in set(aa) & set(ba):
            if len(aa[k]) != len(ba[k]): cs.append(Not(Eq(da, k))); continue
            e = And(*[veq(x, u, v, st) for u, v in zip(aa[k], ba[k])])
            cs.append(Or(Not(Eq(da, k)), e))
        return And(*cs)
    if isinstance(a, (Tup, Arr)) and isinstance(b, (Tup, Arr)):
        return And(*[veq(x, u, v, st) for u, v in zip(a.f, b.f)]) if len(a.f) == len(b.f) else False
    if isinstance(a, Vec) and isinstance(b, Vec):
        n = max(len(a.e), len(b.e))
        cs = [Eq(count(a), count(b))]
        for i in range(n):
            ga, va = nth(x, a, i); gb, vb = nth(x, b, i)
            if va is None or vb is None: continue
            cs.append(Or(Not(And(ga, gb)), veq(x, va, vb, st)))
        return And(*cs)
    if isinstance(a, V) or isinstance(b, V): return False
    return Eq(a, b)
def count(v):
    if all(g is True for g, _ in v.e): return len(v.e)
    return z3.Sum([z3.If(zb(g), 1, 0) for g, _ in v.e] + [z3.IntVal(0)])
def nth(x, v, i):
    """(there is an i-th element, its value) of a guarded list"""
    if v.mono or all(g is True for g, _ in v.e):
        return (v.e[i][0], v.e[i][1]) if i < len(v.e) else (False, None)
    r, ex = None, []
    for j in range(len(v.e) - 1, -1, -1):
        g = v.e[j][0]
        before = z3.Sum([z3.If(zb(h), 1, 0) for h, _ in v.e[:j]] + [z3.IntVal(0)])
        c = And(g, before == i) if j else (g if i == 0 else False)
        if c is False: continue
        ex.append(c)
        r = v.e[j][1] if r is None else ite(c, v.e[j][1], r)
    return (Or(*ex), r) if ex else (False, None)

# ------------------------------------------------------------------ check runs
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.level = level
        self.obligations = self.discharged = self.unknown = 0
        self.queries = 0
        self.solver_s = 0.0
        self.functions = {}
        self.contracts = {}
        self.samples = []
        self.cov = {}
        self.candidates = []     # counterexamples of the solver awaiting native confirmation
        self.confirmed = []
        self.unconfirmed = []
        self.uncovered = []
        self.notes = []
        self.assumptions = []
        self.bounds = {}
        self.witnesses = 0
        self.stmts = self.states = self.edges = 0
        fp = os.path.join(ROOT, "known_findings.json")
        self.known = [k for k in json.load(open(fp))["findings"] if k.get("property") == pid and k.get("status") == "known"] if os.path.exists(fp) else []
        self.known_hit = set()
    @property
    def thorough(self): return self.tier == "thorough"
    def absorb(self, r):
        """add the counters of a worker"""
        for k in ("obligations", "discharged", "unknown", "queries", "solver_s", "witnesses", "stmts", "states", "edges"):
            setattr(self, k, getattr(self, k) + r.get(k, 0))
        for k in ("functions", "contracts"):
            d = getattr(self, k)
            for a, b in r.get(k, {}).items(): d[a] = d.get(a, 0) + b
        self.candidates += r.get("candidates", [])
        self.uncovered += r.get("uncovered", [])
        self.samples += r.get("samples", [])[:max(0, 12 - len(self.samples))]
    def absorb_x(self, x):
        self.queries += x.queries; self.solver_s += x.solver_time; self.stmts += x.stmts; self.states += x.nblocks; self.edges += x.nedges
        for a, b in x.encoded.items(): self.functions[a] = self.functions.get(a, 0) + b
        for a, b in x.contracts.items(): self.contracts[a] = self.contracts.get(a, 0) + b
    def violation(self, name, replay_text, ident):
        """a natively confirmed violation; ident identifies it for the known findings"""
        for k in self.known:
            if k.get("match") and all(ident.get(a) == b for a, b in k["match"].items()):
                self.known_hit.add(k["id"]); return
        d = os.path.join(ROOT, "build", "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{name}.txt")
        open(p, "w").write(replay_text)
        self.confirmed.append((p, ident))
    def finish(self):
        wall = time.time() - self.t0
        cov = {
            "explanation": "symbolic execution of the MIR of the current tree; every obligation is an SMT query over all inputs within the bounds. states: basic blocks executed symbolically (each stands for all inputs reaching it); transitions: control-flow edges taken; traces_validated_against_impl: solver models replayed on the real code",
            "functions_encoded": len(self.functions),
            "functions_sample": sorted(self.functions)[:40],
            "contracts_used": dict(sorted(self.contracts.items(), key=lambda z: -z[1])[:60]),
            "obligations": self.obligations, "discharged": self.discharged, "undecided": self.unknown,
            "solver_queries": self.queries, "solver_s": round(self.solver_s, 2),
            "states": self.states, "transitions": self.edges, "mir_statements": self.stmts,
            "traces_validated_against_impl": len(self.confirmed) + len(self.unconfirmed),
            "reachability_witnesses": self.witnesses,
            "bounds": self.bounds, "samples": self.samples[:12],
            "uncovered": self.uncovered[:60], "uncovered_count": len(self.uncovered),
            "spurious_counterexamples": self.unconfirmed[:10],
            "notes": self.notes[:40],
        }
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.confirmed)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        for k in self.known:
            if k["id"] in self.known_hit: print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f"{self.pid} {self.tier}: obligations {self.obligations}, discharged {self.discharged}, undecided {self.unknown}, "
              f"queries {self.queries}, solver {self.solver_s:.1f}s, functions {len(self.functions)}, uncovered {len(self.uncovered)}, wall {wall:.0f}s")
        for u in self.uncovered[:8]: print("  not covered:", str(u)[:300])
        for u in self.unconfirmed[:5]: print("  counterexample of the encoding that the real code does not show:", str(u)[:300])
        if self.confirmed:
            for p, i in self.confirmed[:20]:
                print("  ", json.dumps(i)[:400])
            print(f"VIOLATION property={self.pid} replay={self.confirmed[0][0]}")
            sys.stdout.flush()
            os._exit(1)
        sys.stdout.flush()
        os._exit(0)

def pool_map(fn, jobs, procs=8):
    """run fn over jobs in worker processes, largest first"""
    if len(jobs) == 1: return [fn(jobs[0])]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(jobs))) as p:
        return list(p.imap_unordered(fn, jobs, chunksize=1))
