"""Extracts the facts (types, impls, MIR) of /repo's current working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CHOMP_REPO", "/repo")
CACHE = os.environ.get("CHOMP_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(VERIF, "driver")
BIN = os.path.join(DRIVER, "target", "debug", "chomp-facts")
SKIP = {"target", ".git"}


class Unbuildable(Exception):
    pass


def sources(repo):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".nb")):
                out.append(os.path.join(d, f))
    return out


def digest(files, extra=b""):
    h = hashlib.sha256(extra)
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Unbuildable("%s failed:\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_driver():
    """only when the binary is absent or older than its source"""
    src = [os.path.join(DRIVER, "Cargo.toml")] + [os.path.join(DRIVER, "src", f) for f in os.listdir(os.path.join(DRIVER, "src"))]
    stamp = os.path.join(DRIVER, "target", "stamp")
    want = digest(src)
    if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env["CARGO_TARGET_DIR"] = os.path.join(DRIVER, "target")
    run(["cargo", "+nightly", "build", "--offline"], DRIVER, env)
    with open(stamp, "w") as f:
        f.write(want)


CRATES = ("chomp-lib", "chomp-bin", "chewed-lib", "autonibble-lib", "autonibble-bin", "chomp_macro-macro", "chomp_bench-lib")


def absent(out):
    """crates of the workspace for which there is no fact file of sensible size"""
    return [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))
            or os.path.getsize(os.path.join(out, c + ".json")) < 2000]


def facts(repo=None, cache=None, fresh=False):
    """directory of the fact files of the tree at `repo`"""
    repo = repo or REPO
    cache = cache or CACHE
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(cache, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        with open(BIN, "rb") as fh:
            h = hashlib.sha256(fh.read()).digest()
        key = digest(sources(repo), h)
        out = os.path.join(cache, "facts-" + key)
        if not fresh and os.path.exists(os.path.join(out, "DONE")):
            return out, key
        for d in os.listdir(cache):
            if d.startswith("facts-"):
                shutil.rmtree(os.path.join(cache, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(cache, "target")
        # member crates are always recompiled: cargo's freshness looks at
        # mtimes, the facts must come from the present text
        dbg = os.path.join(tgt, "debug")
        for sub in ("incremental", "deps", ".fingerprint", "build"):
            p = os.path.join(dbg, sub)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if n.startswith(("chomp", "libchomp", "chewed", "libchewed", "autonibble", "libautonibble")):
                        q = os.path.join(p, n)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], "/").strip()
        env.update({
            "LD_LIBRARY_PATH": sysroot + "/lib",
            "CARGO_INCREMENTAL": "0",
            "CHOMP_FACTS_DIR": out,
            "CARGO_TARGET_DIR": tgt,
            "RUSTC_WORKSPACE_WRAPPER": BIN,
        })
        cmd = ["cargo", "+nightly", "check", "--offline", "--workspace", "--lib", "--bins"]
        try:
            run(cmd, repo, env)
            if absent(out):
                # cargo thought something fresh: start from nothing
                shutil.rmtree(tgt, ignore_errors=True)
                run(cmd, repo, env)
            if absent(out):
                raise Unbuildable("no facts were extracted for " + ", ".join(absent(out)))
        except Unbuildable:
            shutil.rmtree(out, ignore_errors=True)
            raise
        open(os.path.join(out, "DONE"), "w").close()
        return out, key
