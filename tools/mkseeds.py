"""mkseeds.py [ids...]: writes /verif/seeded/<id>/ from seeds.py and confirms each (applies, builds, allocator tests, demo 0 / nonzero)."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + "/seeded"


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)


def tests(d):
    t = d + "/_t"
    p = sh("gcc -w -std=c99 -O2 -Iinclude -Isrc -I/usr/include/libxml2 tests/allocator.c src/CharAllocator.c src/Parser.c src/PrintfLogger.c -o %s -lxml2 -lcheck -lsubunit -lm -lpthread -lrt && %s" % (t, t), d)
    if p.returncode:
        return p.stdout[-600:]
    p = sh("clang -Werror=implicit-function-declaration -w -std=gnu11 -fsyntax-only -I%s/shim/include -Iinclude -Isrc -Ibackends/open62541/include -Ibackends/open62541/src -I/usr/include/libxml2 src/*.c src/nodes/*.c backends/open62541/src/*.c" % V, d)
    if p.returncode:
        return p.stdout[-600:]


def make(s):
    d = OUT + "/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(V + "/tools/kit.py", d); shutil.copy(V + "/pbt/drv.py", d); shutil.copy(V + "/driver/driver.c", d); shutil.copy(V + "/driver/threads.c", d)
    shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.py", "w").write("from kit import *\n" + s["demo"].strip("\n") + "\nok()\n")
    open(d + "/demo.sh", "w").write('#!/bin/sh\n# exit 0: the property holds for the input of this demonstration\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns("_build"))
        w += "/r"
        sh("git checkout -q -- .", w)
        clean = sh(["sh", d + "/demo.sh"], w)
        for f, o, n in s["edits"]:
            t = open(w + "/" + f).read()
            assert t.count(o) == 1, (s["id"], f, t.count(o))
            open(w + "/" + f, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git diff", w).stdout)
        t = tests(w)
        bad = sh(["sh", d + "/demo.sh"], w)
        ok = clean.returncode == 0 and bad.returncode != 0 and bad.returncode != 3 and not t
        return "%-26s %s clean=%d bad=%d%s %s" % (s["id"], "ok" if ok else "BROKEN", clean.returncode, bad.returncode, "" if not t else " TESTS " + t, (bad.stdout if clean.returncode == 0 else clean.stdout)[-300:].strip())
    finally:
        shutil.rmtree(os.path.dirname(w), ignore_errors=True)


if __name__ == "__main__":
    want = sys.argv[1:]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(make, [s for s in seeds.S if not want or s["id"] in want]):
            print(r, flush=True)
