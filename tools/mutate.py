"""mutate.py N SEED OUT [file substring]: N random one-line mutants of the code under test, each run against the checks
(500 cases) in a copy until one catches it; survivors are written to OUT."""
import glob, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sub = sys.argv[4] if len(sys.argv) > 4 else ""
LATER = [2, 6, 40, 300]
CASES = os.environ.get("MUT_CASES", "500")
SRC = "C06 C12 C05 C02 C10 C09 C16 C03 C04 C07 C08 C17 C18 C13 C14 C19 C15 C11 C20 C21 C25 C23 C24 C28".split()
BACK = "C20 C22 C23 C24 C21 C25 C28 C26 C27 C11 C29".split()


def mutants():
    out = []
    for f in sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/backends/open62541/src/*.c")):
        if sub not in f:
            continue
        lines = open(f).read().split("\n")
        depth = 0
        for i, l in enumerate(lines):
            s = l.strip()
            inside = depth > 0
            depth += l.count("{") - l.count("}")
            if not inside or not s or s.startswith(("//", "*", "/*", "#")):
                continue

            def add(new, what):
                if new != l:
                    out.append((f, i, l, new, what))
            for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), ("++", "--"), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"), ("NULL;", "NULL;"), (" 1", " 2"), (" 0", " 1"), ("[0]", "[1]"), ("->next", ""), ("break;", ";"), ("continue;", ";")):
                for m in re.finditer(re.escape(a), l):
                    if b != a and not (a in ("true", "false") and re.match(r"\w", l[m.end():m.end() + 1] or " ")):
                        add(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
            m = re.match(r"(\s*(?:else )?if\s*\()(.*)(\)\s*\{?)$", l)
            if m:
                add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate")
                for k in LATER:
                    add(m.group(1) + "({ static int mut; bool mutb = (%s); ++mut < %d ? mutb : true; })" % (m.group(2), k) + m.group(3), "true from execution %d on" % k)
                    add(m.group(1) + "({ static int mut; bool mutb = (%s); ++mut < %d ? mutb : false; })" % (m.group(2), k) + m.group(3), "false from execution %d on" % k)
            for m in re.finditer(r"(?<![\w.\"'])([1-9]\d*)(?![\w.\"'])", l):
                add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "constant + 1")
                add(l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():], "constant - 1")
            m = re.match(r"(\s*)(?!return|break|continue|goto|[A-Za-z_][\w\s\*]*\s\**\w+\s*(=|;|\[))([\w\->\.\[\]\(\)\*&].*;)$", l)
            if m and s.count("(") == s.count(")"):
                add(m.group(1) + ";", "delete")
                for k in LATER:
                    add(m.group(1) + "{ static int mut; if (++mut < %d) { %s } }" % (k, m.group(3)), "delete from execution %d on" % k)
            m = re.match(r"(\s*)return (\w[^;]*);", l)
            if m:
                if m.group(2) not in ("true", "false"):
                    add(m.group(1) + "return 0;", "return 0")
    return out


def one(k, m, w):
    f, i, old, new, what = m
    rel = os.path.relpath(f, REPO)
    t = open(f).read().split("\n")
    assert t[i] == old
    t[i] = new
    open(w + "/r/" + rel, "w").write("\n".join(t))
    env = dict(os.environ, VERIF_REPO=w + "/r", VERIF_SEED=str(SEED), VERIF_TIER="quick", VERIF_JOBS=os.environ.get("MUT_JOBS", "4"), VERIF_SHRINK="0")
    try:
        b = subprocess.run(["python3", "-m", "pbt.build"], cwd=w + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            return "NOBUILD"
        for c in (SRC if rel.startswith("src") else BACK):
            p = subprocess.run(["python3", "run.py", c, "--cases", CASES], cwd=w + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            if p.returncode:
                return c if p.returncode == 1 else "ERROR " + c + p.stdout[-300:]
        return "SURVIVED"
    except subprocess.TimeoutExpired:
        return "TIMEOUT " + c
    finally:
        shutil.copy(f, w + "/r/" + rel)
        for x in glob.glob(w + "/v/build/driver-*") + glob.glob(w + "/v/build/plain-*") + glob.glob(w + "/v/build/fuzz*"):
            os.remove(x)


ms = mutants()
print(len(ms), "possible mutants")
random.Random(SEED).shuffle(ms)
ms = ms[:N]
pool, lock, res = [], threading.Lock(), {}
W = int(os.environ.get("MUT_WORKERS", "2"))
for _ in range(W):
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns("_build", ".git"))
    shutil.copytree(V, w + "/v", ignore=shutil.ignore_patterns("build", "seeded", ".git", "replays", "evidence"))
    os.makedirs(w + "/v/build")
    pool.append(w)


def job(km):
    k, m = km
    with lock:
        w = pool.pop()
    try:
        r = one(k, m, w)
    except Exception as e:
        r = "EXC %r" % e
    with lock:
        pool.append(w)
        res[r] = res.get(r, 0) + 1
        with open(OUT, "a") as o:
            if r in ("SURVIVED",) or r.startswith(("ERROR", "TIMEOUT", "EXC")):
                o.write("%s  %s:%d  [%s]\n  - %s\n  + %s\n" % (r, os.path.relpath(m[0], REPO), m[1] + 1, m[4], m[2].strip(), m[3].strip()))
        with open(OUT + ".stat", "w") as o:
            o.write("%d done: %s\n" % (sum(res.values()), sorted(res.items(), key=lambda x: -x[1])))


with ThreadPoolExecutor(W) as ex:
    list(ex.map(job, enumerate(ms)))
for w in pool:
    shutil.rmtree(w)
print(open(OUT + ".stat").read())
