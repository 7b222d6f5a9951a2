#!/usr/bin/env python3
"""morphs.py [KIND…]: rewrites one function at a time by tools/morph (behaviour stays the same) and reports
every check that raises an alarm or loses obligations on it. env: FILES (regex), SKIP (kinds), N, SEED, LOG."""
import os, random, re, subprocess, sys, importlib.util
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("refactors", HERE + "/refactors.py")
src = open(HERE + "/refactors.py").read().replace("\nmain()\n", "\n")
g = {"__file__": HERE + "/refactors.py"}
exec(src, g)
MORPH = os.environ.get("MORPH", "/tmp/scratch/morph/release/morph")


SRC = os.environ.get("LABDIR", "/tmp/lab") + "/src"
subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s" % (SRC, SRC), shell=True, check=True)


def sites():
    fs = subprocess.run(["git", "-C", "/repo", "ls-files"], capture_output=True, text=True).stdout.split()
    for f in fs:
        if not f.endswith(".rs") or not re.search(os.environ.get("FILES", "."), f) or re.search("build.rs|tests/|benches/", f):
            continue
        for l in subprocess.run([MORPH, "list", SRC + "/" + f], capture_output=True, text=True, check=True).stdout.splitlines():
            i, name, kind, n = l.split()
            yield f, int(i), name, kind


def main():
    kinds = sys.argv[1:]
    skip = os.environ.get("SKIP", "").split()
    log = os.environ.get("LOG", "/tmp/scratch/morph.log")
    done = {l.split(" ")[0] for l in open(log)} if os.path.exists(log) else set()
    todo = [s for s in sites() if (not kinds or s[3] in kinds) and s[3] not in skip]
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(todo)
    todo = [s for s in todo if "%s:%d:%s:%s" % s not in done][:int(os.environ.get("N", "100000"))]
    q = queue.Queue()
    for k in range(g["LABS"]):
        q.put(g["lab"](k))

    def go(s):
        f, i, name, kind = s
        id = "%s:%d:%s:%s" % s
        d = q.get()
        try:
            old = open(SRC + "/" + f).read()
            new = subprocess.run([MORPH, "apply", SRC + "/" + f, kind, str(i)], capture_output=True, text=True)
            if new.returncode:
                return id, "TOOL", new.stderr[:200]
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "-f", "."], check=True)
            open(d + "/repo/" + f, "w").write(new.stdout)
            return (id,) + g["run"](id, None, d)[1:]
        except subprocess.TimeoutExpired:
            return id, "TIMEOUT", ""
        finally:
            q.put(d)
    with ThreadPoolExecutor(g["LABS"]) as ex, open(log, "a") as out:
        for id, res, det in ex.map(go, todo):
            out.write("%s %s %s\n" % (id, res, det.replace("\n", " // ")[:700] if res != "NOBUILD" else ""))
            out.flush()


main()
