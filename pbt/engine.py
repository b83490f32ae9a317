"""Generated-input search: choice sequences, parallel execution, shrinking, replay and evidence.

A property is a Prop with a function `case(src, env)` that draws a case from the choice source, executes it against
the code under test and returns an Outcome.  Case i of a run is a function of (seed, property, i) only.
"""
import hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
from . import build, drv

VERIF = build.VERIF


class Source:
    """choices are integers 0..n-1; 0 is the simplest one; replayed choices are clamped"""
    __slots__ = ("rng", "pre", "rec", "limit")

    def __init__(self, rng=None, choices=None):
        self.rng, self.pre, self.rec, self.limit = rng, choices, [], 400000

    def int(self, n):
        if n <= 1:
            return 0
        k = len(self.rec)
        if self.pre is not None:
            v = self.pre[k] if k < len(self.pre) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        if k > self.limit:
            raise OverflowError("case too large")
        return v

    def range(self, a, b):
        """a..b, simplest a"""
        return a + self.int(b - a + 1)

    def chance(self, p):
        """true with probability p; false is simpler"""
        return self.int(1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.int(len(seq))]

    def weighted(self, pairs):
        """[(value, weight)]; the first is the simplest"""
        t = sum(w for _, w in pairs)
        x = self.int(t)
        for v, w in pairs:
            if x < w:
                return v
            x -= w

    def size(self, small, large, p=0.15):
        """mostly 0..small, sometimes up to large"""
        if self.chance(p):
            return self.range(0, large)
        return self.range(0, small)

    def seed(self):
        return self.int(1 << 20)

    def rngseed(self):
        """detail that is not worth shrinking comes from one number"""
        return random.Random(self.seed())

    def shuffle(self, l):
        for i in range(len(l) - 1, 0, -1):
            j = i - self.int(i + 1)   # 0: stays in place
            l[i], l[j] = l[j], l[i]
        return l

    def order(self, n):
        """permutation of range(n), identity is the simplest"""
        if self.int(4) == 0 or n < 2:
            return list(range(n))
        return self.shuffle(list(range(n)))


class Outcome:
    __slots__ = ("fails", "key", "nontrivial", "labels", "sample", "files", "info")

    def __init__(self):
        self.fails, self.key, self.nontrivial, self.labels, self.sample, self.files, self.info = [], "", False, [], "", {}, {}


class Env:
    """what a case needs to execute: a driver and a scratch directory"""

    def __init__(self, exe, tmp):
        self.drv = drv.Driver(exe) if exe else None
        self.pdrv = None
        self.dir = tempfile.mkdtemp(prefix="w", dir=tmp)
        self.n = 0
        self.extra = {}

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass"))
        return p

    def run(self, lines):
        return self.drv.run(lines)

    def plain(self, lines):
        """the same without sanitizers"""
        if not self.pdrv:
            self.pdrv = drv.Driver(build.build_plain())
        return self.pdrv.run(lines)

    def close(self):
        for d in (self.drv, self.pdrv):
            d and d.close()


class Prop:
    def __init__(self, id, case, rule, quick, thorough, level="exploration", assumptions=(), exe=None, special=None, title="", note=""):
        self.id, self.case, self.rule, self.quick, self.thorough, self.level = id, case, rule, quick, thorough, level
        self.assumptions, self.exe, self.special, self.title, self.note = list(assumptions), exe, special, title, note


_P = _E = _SEED = None


def _init(pid, exe, tmp, seed):
    global _P, _E, _SEED
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import props
    _P, _E, _SEED = props.get(pid), Env(exe, tmp), seed


def _execute(prop, env, src):
    try:
        return prop.case(src, env)
    except OverflowError:
        return None


def _chunk(rg):
    a, b = rg
    res = {"n": 0, "nt": [], "labels": {}, "fail": None, "samples": [], "err": None, "info": {}}
    for i in range(a, b):
        src = Source(random.Random("%s/%s/%d" % (_SEED, _P.id, i)))
        try:
            o = _execute(_P, _E, src)
        except Exception:
            res["err"] = (i, traceback.format_exc())
            break
        if o is None:
            continue
        res["n"] += 1
        for l in o.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        for k, v in o.info.items():
            res["info"][k] = res["info"].get(k, 0) + v
        if o.nontrivial:
            res["nt"].append(hashlib.blake2b(o.key if isinstance(o.key, bytes) else o.key.encode("utf-8", "surrogatepass"), digest_size=8).digest())
            if len(res["samples"]) < 1 and a < 4000:
                res["samples"].append(o.sample[:1500] if isinstance(o.sample, str) else o.sample)
        if o.fails:
            res["fail"] = (i, src.rec, o.fails[0], o.fails[:8])
            break
    return res


def _signature(msg):
    """the kind of failure, so that shrinking does not wander off to another one"""
    return msg.split(":", 1)[0]


def shrink(prop, env, choices, sig, budget):
    end = time.time() + budget
    best = list(choices)
    tried = set()

    def bad(c):
        nonlocal best
        t = tuple(c)
        if t in tried or time.time() > end:
            return False
        tried.add(t)
        src = Source(choices=list(c))
        try:
            o = _execute(prop, env, src)
        except Exception:
            return False
        if o and any(_signature(f) == sig for f in o.fails):
            new = list(src.rec)
            while new and new[-1] == 0:
                new.pop()
            if (len(new), new) < (len(best), best):
                best = new
                return True
        return False

    bad([x for x in best])
    progress = True
    while progress and time.time() < end:
        progress = False
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < end:          # delete chunks
            i = len(best) - k
            while i >= 0 and time.time() < end:
                if i + k <= len(best) and bad(best[:i] + best[i + k:]):
                    progress = True
                i -= k if k < 8 else max(1, k // 2)
            k //= 2
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < end:          # zero chunks
            i = 0
            while i < len(best) and time.time() < end:
                if any(best[i:i + k]) and bad(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                    progress = True
                i += k
            k //= 2
        for i in range(len(best)):                    # lower single values
            if time.time() > end:
                break
            if i < len(best) and best[i] > 0:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and bad(best[:i] + [v] + best[i + 1:]):
                        progress = True
                        break
    return best


def run_prop(prop, tier, seed, cases=None, cap=None, replay=None):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="nlpbt-")
    try:
        return _run_prop(prop, tier, seed, cases, cap, replay, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _evidence(prop, tier, seed, cov, t0, violations):
    d = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "assumptions": prop.assumptions,
         "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = "%s/evidence/%s.json" % (VERIF, prop.id)
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def known_findings():
    r = []
    try:
        for l in open(VERIF + "/known-findings.txt"):
            l = l.strip()
            if l.startswith("finding:"):
                r.append(l)
    except OSError:
        pass
    return r


def _run_prop(prop, tier, seed, cases, cap, replay, t0, tmp):
    exe = prop.exe() if prop.exe else build.build_driver()
    prop.exe or build.build_plain()
    if replay:
        d = json.load(open(replay))
        env = Env(exe, tmp)
        if d.get("special"):
            fails = prop.special.replay(d, env)
        else:
            o = _execute(prop, env, Source(choices=d["choices"]))
            fails = o.fails
        env.close()
        for f in fails[:5]:
            print("  " + f)
        if fails:
            print("VIOLATION property=%s replay=%s" % (prop.id, replay))
            return 1
        print("no violation on replay")
        return 0
    total = cases or (prop.quick if tier == "quick" else prop.thorough)
    cap = cap or (150 if tier == "quick" else 780)
    agg = {"n": 0, "labels": {}, "nt": set(), "samples": [], "info": {}}
    fail = None
    spec_cov = {}
    if prop.special:
        fail = prop.special.run(tier, seed, tmp, exe, agg, spec_cov, cap)
    if total and not fail:
        step = 10 if total < 3000 else 25
        jobs = [(i, min(i + step, total)) for i in range(0, total, step)]
        procs = int(os.environ.get("VERIF_JOBS", "8"))
        errs = []
        with mp.get_context("fork").Pool(procs, _init, (prop.id, exe, tmp, seed)) as pool:
            it = pool.imap_unordered(_chunk, jobs)
            deadline = t0 + cap
            ffirst = None
            for _ in range(len(jobs)):
                try:
                    r = it.next(timeout=max(0.1, (ffirst + 3 if ffirst else deadline) - time.time()))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                agg["n"] += r["n"]
                agg["nt"].update(r["nt"])
                for k, v in r["labels"].items():
                    agg["labels"][k] = agg["labels"].get(k, 0) + v
                for k, v in r["info"].items():
                    agg["info"][k] = agg["info"].get(k, 0) + v
                if len(agg["samples"]) < 4:
                    agg["samples"] += r["samples"]
                if r["err"]:
                    errs.append(r["err"])
                if r["fail"] and (fail is None or r["fail"][0] < fail[0]):
                    fail = r["fail"]
                    ffirst = ffirst or time.time()
            pool.terminate()
        if errs and not fail:
            sys.stderr.write("error of the check itself in case %d:\n%s" % errs[0])
            return 2
    unrepro = 0
    violation = None
    if fail and isinstance(fail, tuple):
        env = Env(exe, tmp)
        idx, choices, msg, allmsgs = fail
        good = 0
        for _ in range(5):
            o = _execute(prop, env, Source(choices=list(choices)))
            if o and o.fails:
                good += 1
                msg = o.fails[0]
                if good >= 2:
                    break
        if good:
            small = shrink(prop, env, choices, _signature(msg), int(os.environ.get("VERIF_SHRINK", "45" if tier == "quick" else "90")))
            o = _execute(prop, env, Source(choices=list(small)))
            if not (o and o.fails):
                small = choices
                o = _execute(prop, env, Source(choices=list(small)))
            o = o if o and o.fails else None
            violation = {"property": prop.id, "seed": seed, "case": idx, "choices": small, "message": (o.fails if o else allmsgs)[:8],
                         "files": {k: (v if isinstance(v, str) else v.decode("utf-8", "backslashreplace"))[:20000] for k, v in (o.files if o else {}).items()}}
        else:
            unrepro = 1
        env.close()
    elif fail:
        violation = fail
    cov = {"evaluations": agg["n"], "distinct_nontrivial": len(agg["nt"]), "rule": prop.rule, "samples": agg["samples"][:4] or ["(none)"],
           "labels": dict(sorted(agg["labels"].items())), "cases_planned": total}
    if agg["info"]:
        cov["totals"] = agg["info"]
    cov.update(spec_cov)
    if unrepro:
        cov["unreproduced_failure"] = fail[2]
    _evidence(prop, tier, seed, cov, t0, 1 if violation else 0)
    for l in known_findings():
        if " property=%s " % prop.id in l:
            print("KNOWN-FINDING: " + l[len("finding:"):].strip())
    if violation:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        h = hashlib.sha256(json.dumps(violation.get("message"), default=str).encode()).hexdigest()[:8]
        path = "%s/replays/%s-%s.json" % (VERIF, prop.id, h)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        for m in violation["message"][:5]:
            print("  " + str(m)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (prop.id, agg["n"], len(agg["nt"]), time.time() - t0))
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--cap", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    from . import props
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        sys.exit(run_prop(props.get(a.property), tier, a.seed, a.cases, a.cap, a.replay))
    except build.BuildError as e:
        sys.stderr.write("the code under test does not build with the harness:\n%s\n" % e)
        sys.exit(2)
