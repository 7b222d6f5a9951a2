#!/usr/bin/env python3
"""refactors.py [ID-PREFIX]: applies each edit of tools/refactors/*.py (behaviour stays the same) to a
scratch copy of /repo and reports every check that raises an alarm or loses obligations on it.
Each file of tools/refactors defines R = {id: [(file, old, new), ...]}."""
import glob, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

LABS = int(os.environ.get("J", "7"))
BASE = os.environ.get("LABDIR", "/tmp/lab")


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors", "*.py"))):
        g = {}
        exec(open(f).read(), g)
        out.update(g["R"])
    return out


def lab(k):
    d = "%s/%d" % (BASE, k)
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run("git checkout -q -f . && git clean -fdq && git fetch -q /repo HEAD && git checkout -q -f --detach %s" % h, shell=True, cwd=d + "/repo", check=True)
    return d


def run(id, edits, d):
    repo = d + "/repo"
    if edits is not None:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "-f", "."], check=True)
    for f, old, new in edits or ():
        s = open(repo + "/" + f).read()
        if s.count(old) != 1:
            return id, "EDIT %s matches %d times: %r" % (f, s.count(old), old[:60]), ""
        open(repo + "/" + f, "w").write(s.replace(old, new))
    env = dict(os.environ, CHOMP_REPO=repo, CHOMP_CACHE=d + "/cache", CHOMP_EVIDENCE=d + "/evidence", CARGO_PROFILE_DEV_DEBUG="0")
    if os.environ.get("BUILD"):
        b = subprocess.run(["cargo", "check", "-q", "--offline", "--workspace"], cwd=repo, env=dict(env, RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
        if b.returncode:
            return id, "NOBUILD", b.stderr[:1500]
    p = subprocess.run([sys.executable, os.environ.get("CHECK", "/verif/check.py"), "all"], env=env, capture_output=True, text=True, timeout=900)
    out = p.stdout + p.stderr
    if p.returncode == 3 and "does not build" in out:
        return id, "NOBUILD", out[:600]
    alarms = sorted(set(re.findall(r"^VIOLATION property=(\w+)", out, re.M)))
    und = re.findall(r"^(C\d+): .* (\d+) undecided", out, re.M)
    und = [c for c, n in und if n != "0"]
    broken = len(re.findall(r"^C\d+: ", out, re.M)) < 20
    det = ""
    if und and os.environ.get("U"):
        env["CHOMP_DEBUG"] = "1"
        p = subprocess.run([sys.executable, os.environ.get("CHECK", "/verif/check.py"), "all"], env=env, capture_output=True, text=True, timeout=900)
        det = "\n".join(sorted({l[:int(os.environ.get("W", "300"))] for l in (p.stdout + p.stderr).splitlines() if "undecided: " in l}))[:600]
    if alarms or broken:
        det = "\n".join(l[:int(os.environ.get("W", "300"))] for l in out.splitlines() if l.startswith("  ") and "undecided" not in l)[:1500]
    if broken:
        det += out[-1500:]
    return id, "BROKEN" if broken else "ALARM " + ",".join(alarms) if alarms else ("undecided " + ",".join(und)) if und else "quiet", det


def main():
    R = load()
    pre = sys.argv[1:] or [""]
    R = {k: v for k, v in R.items() if any(k.startswith(p) for p in pre)}
    q = queue.Queue()
    for k in range(LABS):
        q.put(lab(k))

    def go(x):
        d = q.get()
        try:
            return run(x[0], x[1], d)
        except subprocess.TimeoutExpired:
            return x[0], "TIMEOUT", ""
        finally:
            q.put(d)
    n = {}
    with ThreadPoolExecutor(LABS) as ex:
        for id, res, det in ex.map(go, R.items()):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            if res != "quiet" or os.environ.get("ALL"):
                print(id, res)
                if det:
                    print(det)
    print(n)


main()
