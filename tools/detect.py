"""detect.py ids...|all [--checks C01,C02|own|all]: runs the checks against planted bugs in copies of /repo."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = "own"
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1]; del args[i:i + 2]
ids = sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*")) if args == ["all"] else args
allc = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def one(id):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
    w = tempfile.mkdtemp(prefix="det")
    try:
        shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns("_build"))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/r", check=True)
        subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, id)], cwd=w + "/r", check=True)
        # the verification directory is copied as well, runs must not mix their evidence and replays
        shutil.copytree(V, w + "/v", ignore=shutil.ignore_patterns("build", "seeded", ".git", "replays", "evidence"))
        env = dict(os.environ, VERIF_REPO=w + "/r", VERIF_SEED="1", VERIF_TIER="quick")
        cs = [m["property"]] if checks == "own" else allc if checks == "all" else checks.split(",")
        res = []
        for c in cs:
            p = subprocess.run(["python3", "run.py", c], cwd=w + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = "VIOLATION property=%s" % c in p.stdout
            res.append((c, "CAUGHT" if p.returncode == 1 and v else "quiet" if p.returncode == 0 else "ERROR%d" % p.returncode, p.stdout.strip().splitlines()[-2:] if v or p.returncode else []))
        return id, m["property"], res
    finally:
        shutil.rmtree(w, ignore_errors=True)


table_file = V + "/tools/design/detected.json"
table = json.load(open(table_file)) if os.path.exists(table_file) else {}
with ThreadPoolExecutor(2) as ex:
    for id, prop, res in ex.map(one, ids):
        known = set(table.get(id, [])) - {c for c, _, _ in res}
        table[id] = sorted(known | {c for c, r, _ in res if r == "CAUGHT"})
        with open(table_file, "w") as f:
            json.dump(table, f, indent=0, sort_keys=True)
        if checks == "own":
            print("%-26s %s %s %s" % (id, prop, res[0][1], " ".join(res[0][2])[:150]), flush=True)
        else:
            print("%-26s %s caught by: %s%s" % (id, prop, " ".join(c for c, r, _ in res if r == "CAUGHT"), "  ERRORS " + str([x for x in res if x[1].startswith("ERR")]) if any(x[1].startswith("ERR") for x in res) else ""), flush=True)
