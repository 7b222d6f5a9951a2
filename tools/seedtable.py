"""Which checks catch which planted bugs: applies each to a scratch copy and runs every check.
Usage: seedtable.py [ID...]  (prints a Markdown table)"""
import glob, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
D = os.environ.get("LABDIR", "/tmp/lab") + "/seeds"
subprocess.run("mkdir -p %s && (test -d %s/repo || cp -a /repo %s/repo)" % (D, D, D), shell=True, check=True)
env = dict(os.environ, CHOMP_REPO=D + "/repo", CHOMP_CACHE=D + "/cache", CHOMP_EVIDENCE=D + "/evidence")
print("| planted bug | property | caught by | what it breaks |\n|---|---|---|---|")
for m in sorted(glob.glob(HERE + "/../seeded/*/meta.json"), key=lambda m: (json.load(open(m))["property"], m)):
    j = json.load(open(m))
    if sys.argv[1:] and m.split("/")[-2] not in sys.argv[1:]:
        continue
    subprocess.run("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git apply %s" % os.path.abspath(os.path.dirname(m) + "/patch.diff"), shell=True, cwd=D + "/repo", check=True)
    o = subprocess.run(["python3", HERE + "/../check.py", "all"], env=env, capture_output=True, text=True).stdout
    by = sorted(set(re.findall(r"VIOLATION property=(\w+)", o)))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], ", ".join(by) or "none", " ".join(j["what_it_breaks"].split())), flush=True)
