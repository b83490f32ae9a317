"""coverage-guided part of C01: libFuzzer on the importer, seeded with generated nodesets"""
import base64, glob, os, random, re, subprocess, time
from . import build, model as M
from .engine import Source, Env

VERIF = build.VERIF


def build_fuzzer(kind="import"):
    src = sorted(glob.glob(build.REPO + "/src/**/*.c", recursive=True)) if kind == "import" else None
    return build.build("fuzz", main=[VERIF + "/fuzz/fuzz_%s.c" % kind], extra=["-fsanitize=fuzzer"], sources=src)


def seeds_import(src, i):
    return M.gen_nodeset(src, M.Cfg(nodes=(3, 6), files=2 if i % 5 == 0 else 1, reftypes=(1, 3), extra_aliases=(1, 3), bigtext=0.0, value_len=(2, 4), fields=(2, 4), ext=0.3, dups=0.2))


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:symbolize=0:allocator_may_return_null=1:quarantine_size_mb=16", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")


class Fuzz:
    def __init__(self, pid, quick, thorough, kind="import", seeds=seeds_import):
        self.pid, self.quick, self.thorough, self.kind, self.seeds = pid, quick, thorough, kind, seeds

    def run(self, tier, seed, tmp, exe, agg, cov, cap):
        fz = build_fuzzer(self.kind)
        t0 = time.time()
        seeds = tmp + "/seeds"
        os.makedirs(seeds)
        for i in range(60):
            src = Source(random.Random("%s/fuzzseed/%d" % (seed, i)))
            m = self.seeds(src, i)
            ts = [M.render(m, k, 3 if i % 3 == 0 else 0, i) for k in range(len(m.files))]
            b = bytes([(1 if i % 2 else 0) + (4 if len(ts) > 1 else 0) + ((8 if i % 5 == 0 else 0) + (16 if i % 7 == 0 else 0) if self.kind == "import" else 0)]) + "\n#SPLIT#\n".join(ts).encode("utf-8", "surrogatepass")
            if len(b) < 10000:
                open("%s/s%d" % (seeds, i), "wb").write(b)
        n = 8
        per = (self.quick if tier == "quick" else self.thorough) // n
        maxt = 60 if tier == "quick" else 600
        procs = []
        for j in range(n):
            d = "%s/fz%d" % (tmp, j)
            os.makedirs(d + "/corpus")
            log = open(d + "/log", "wb")
            cmd = [fz, d + "/corpus", seeds, "-seed=%d" % (seed * 100 + j + 1), "-runs=%d" % per, "-max_len=12000", "-dict=" + VERIF + "/fuzz/xml.dict", "-timeout=60", "-rss_limit_mb=3500", "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-max_total_time=%d" % maxt, "-verbosity=1"]
            procs.append((d, subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV, cwd=d), log))
        bad = None
        alive = list(procs)
        while alive and not bad:
            time.sleep(0.2)
            for x in list(alive):
                if x[1].poll() is not None:
                    alive.remove(x)
                    if x[1].returncode not in (0,):
                        bad = x
            if time.time() - t0 > maxt + 90:
                break
        for x in procs:
            if x[1].poll() is None:
                x[1].kill()
            x[1].wait(); x[2].close()
        runs = units = 0
        for d, p, _ in procs:
            t = open(d + "/log", "rb").read().decode("utf-8", "replace")
            g = re.findall(r"stat::number_of_executed_units: (\d+)", t)
            runs += int(g[-1]) if g else int((re.findall(r"#(\d+)", t) or ["0"])[-1])
            g = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", t)
            if g:
                cov["coverage_edges"] = max(cov.get("coverage_edges", 0), int(g[-1][0]))
                units += int(g[-1][2])
        cov["fuzz_executions"] = runs
        cov["fuzz_corpus_units"] = units
        agg["n"] += runs
        # inputs of distinct coverage count as distinct non-trivial
        for d, p, _ in procs:
            for f in os.listdir(d + "/corpus"):
                agg["nt"].add(bytes.fromhex(f[:16]) if re.fullmatch("[0-9a-f]{40}", f) else f.encode())
        if not bad:
            return None
        arts = [f for f in glob.glob(bad[0] + "/crash-*") + glob.glob(bad[0] + "/timeout-*") + glob.glob(bad[0] + "/oom-*")]
        if not arts:
            cov["fuzzer_ended_without_artifact"] = open(bad[0] + "/log", "rb").read()[-1500:].decode("utf-8", "replace")
            return None
        art = arts[0]
        msg = self.check(fz, art)
        if not msg:
            cov["unreproduced_artifact"] = os.path.basename(art)
            return None
        if "crash-" in art:
            mini = bad[0] + "/minimized"
            subprocess.run([fz, "-minimize_crash=1", "-runs=20000", "-max_total_time=30", "-exact_artifact_path=" + mini, art], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=bad[0])
            if os.path.exists(mini) and os.path.getsize(mini) < os.path.getsize(art):
                m2 = self.check(fz, mini)
                if m2:
                    art, msg = mini, m2
        data = open(art, "rb").read()
        return {"property": self.pid, "special": True, "message": ["crash: " + msg], "input_base64": base64.b64encode(data).decode(), "files": {"input (first byte: options)": data.decode("utf-8", "backslashreplace")[:8000]}}

    def check(self, fz, path):
        """message if the input crashes or does not terminate"""
        for _ in range(3):
            try:
                p = subprocess.run(["prlimit", "--cpu=60", fz, "-timeout=50", "-rss_limit_mb=4000", "-runs=1", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=300)
            except subprocess.TimeoutExpired:
                return "does not terminate"
            if p.returncode:
                t = p.stdout.decode("utf-8", "replace")
                l = [x for x in t.splitlines() if "ERROR" in x or "runtime error" in x or "SUMMARY" in x]
                return (" | ".join(l) or "exit status %d" % p.returncode)[:600]
        return None

    def replay(self, d, env):
        fz = build_fuzzer(self.kind)
        p = env.write("input", base64.b64decode(d["input_base64"]))
        msg = self.check(fz, p)
        return ["crash: " + msg] if msg else []
