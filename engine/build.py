"""Regenerates the MIR dump of /repo's working tree."""
import os, subprocess, hashlib, json, time, fcntl, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")

def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): out.append(p)
    return out
def repo_hash(): return _hash_files(repo_sources())

class BuildError(Exception): pass

def clean_env():
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTDOC", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def driver():
    src = os.path.join(ROOT, "mirdump/src/main.rs")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mirdump-" + _hash_files([src]))
    if not os.path.exists(out):
        e = clean_env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run(["rustc", "+nightly", "--edition", "2024", "-O", src, "-o", tmp, "-C", f"link-args=-Wl,-rpath,{sysroot}/lib"], env=e, capture_output=True, text=True)
        if r.returncode: raise BuildError("driver: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return out

def dump(parts, shards=6):
    """directory with the dump of the given parts of the current tree"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        h = repo_hash() + "-" + os.path.basename(drv)[8:16]
        parts = sorted(parts)
        out = os.path.join(BUILD, "dump", h, "+".join(parts))
        if os.path.exists(os.path.join(out, "ok")) : return out, time.time() - t0
        dd = os.path.join(BUILD, "dump")
        if os.path.isdir(dd):
            for old in sorted(os.listdir(dd), key=lambda x: os.path.getmtime(os.path.join(dd, x)))[:-3]:
                if old != h: shutil.rmtree(os.path.join(dd, old), ignore_errors=True)
        if os.path.isdir(out): shutil.rmtree(out)
        os.makedirs(out)
        e = clean_env()
        e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_INCREMENTAL="0",
                 MIRDUMP_OUT=out, MIRDUMP_CRATE="mx_message", MIRDUMP_PARTS=",".join(parts), MIRDUMP_SHARDS=str(shards),
                 RUSTC_WORKSPACE_WRAPPER=drv)
        e.pop("MIRDUMP_SHARD", None)
        nonce = f"{os.getpid()}{time.time_ns()}"
        cmd = ["cargo", "rustc", "--offline", "--profile", "check", "--lib", "--",
               "--cfg", f'vrun="{nonce}"', "-Aunexpected_cfgs", "-Zmir-opt-level=0", "--cap-lints=allow"]
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
        idx = [os.path.join(out, f"index.{i}.json") for i in range(shards)]
        if r.returncode or not all(os.path.exists(i) for i in idx):
            msg = "\n".join(l for l in r.stderr.splitlines() if "process didn't exit" not in l)
            raise BuildError("MIR dump failed: " + msg[-3000:])
        open(os.path.join(out, "ok"), "w").close()
        # the fingerprint of the nonce build is useless to later runs
    return out, time.time() - t0

if __name__ == "__main__":
    if sys.argv[1] == "setup":      # build the driver; the dumps are made by the checks
        print(driver()); sys.exit(0)
    print(dump(sys.argv[1].split(","))) 
