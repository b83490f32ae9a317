"""Properties of the surroundings of the loader: reference service given by the caller, loaders in several threads."""
import copy, os, subprocess
from ..engine import Prop, Outcome
from .. import build, model as M, server_model as S
from ..model import Cfg, nid
from .core import load, errors, status, base_outcome, texts_of, pick, double, same_report, add_cycle


# ------------------------------------------------------------------ C30
def reclassify(src, m, unknown=False):
    """gives every reference type an arbitrary class; returns {id: (class, known from the start)}"""
    own = [n.id for n in m.nodes if n.cls == "ReferenceType"]
    used = {nid(40): 0, nid(45): 0, nid(47): 0}
    for n in m.nodes:
        for r in n.refs:
            used[r[1]] = 0
    for i in own:
        used[i] = 0
    for n in m.nodes:
        if n.cls == "ReferenceType":
            used[m.rtsuper[n.id]] = 0
    tab, cls = {}, {}
    mode = src.pick(["standard", "arbitrary", "arbitrary", "swapped"])
    for t in used:
        old = m.rtclass(t)
        c = {"h": "h", "n": "n"}.get(old, "n")
        if mode == "arbitrary":
            c = src.pick("hn")
        elif mode == "swapped" and t in own:
            c = "n" if c == "h" else "h"
        if t == nid(45) or t == nid(47):
            c = "h"
        shown = c
        if t == nid(40):
            shown, c = "tn", "n"
        elif c == "h" and src.chance(0.2):
            shown = "hn"      # also non-hierarchical: like the built-in service says of every type of namespace 0
        cls[t] = c
        tab[t] = (shown, "learned" if t in own and src.int(5) else "known")
    # a type definition reference of a type of its own
    tds = []
    if own and src.chance(0.3):
        t = src.pick(own)
        if not any(r[1] == t for n in m.nodes for r in n.refs) and all(m.rtsuper[x] != t for x in own):
            tab[t] = ("tn", tab[t][1]); cls[t] = "n"
            tds.append(t)
            m.labels.add("own type definition reference")
    m.table = cls
    pos = {n.id: i for i, n in enumerate(m.nodes)}
    for i, n in enumerate(m.nodes):
        if n.td and tds and src.int(2):
            n.xtra["tdtype"] = tds[0]
        keep = []
        for r in n.refs:
            fw, t, tg = r
            if cls[t] == "h":
                if tg in pos:
                    if (pos[tg] <= i) == fw:
                        continue
                elif tg not in (M.BOTTOMEXT if fw else M.TOPEXT) and not (n.cls == "ReferenceType" and t == nid(45)):
                    continue
            keep.append(r)
        n.refs = keep
    for i, n in enumerate(m.nodes):
        if n.parent is None:
            continue
        inv = [r for r in n.refs if not r[0] and m.is_hier(r[1])]
        if inv:
            if n.parent not in [r[2] for r in inv]:
                n.parent = src.pick(inv)[2]
        elif pos.get(n.parent, -1) >= i or (n.parent not in pos and n.parent not in M.TOPEXT):
            n.parent = None
    return tab, own


def view(m, k):
    v = copy.copy(m)
    v.files = [m.files[k]]
    return v


def c30_case(src, env):
    m = M.gen_nodeset(src, Cfg(nodes=(8, 60), files=3, values=0.1, ext=0.0, refs=4, uris=3, bigtext=0.0, defs=0.2, encodings=0.0, reftypes=(5, 16), deepreftypes=0.3))
    tab, own = reclassify(src, m)
    split = len(m.files) > 1 and src.chance(0.4)     # one loader per file, one service for all of them
    if split:
        for f in m.files[1:]:
            for i in list(f.nodes):
                if m.nodes[i].cls == "ReferenceType":
                    f.nodes.remove(i); m.files[0].nodes.insert(src.int(len(m.files[0].nodes) + 1), i)
                    m.nodes[i].file = 0
    hidden = None
    doubled = src.chance(0.08)      # only what is left behind is judged
    if doubled:
        tds = [t for t in tab if tab[t][0] == "tn"]
        for n in m.nodes:
            if n.td and src.int(3):
                for _ in range(src.range(1, 3)):
                    n.refs.append((True, src.pick(tds), nid(58)))
    m.complete_tables()
    if not doubled and src.chance(0.12):
        cand = sorted({r[1] for n in m.nodes for r in n.refs} - {nid(45), nid(47)}, key=str)
        if cand:
            hidden = src.pick(cand)
            del tab[hidden]
    texts = texts_of(src, m)
    if doubled and src.int(2):
        texts = [double(src, t) for t in texts]
    o = base_outcome(m, texts)
    idx = m.nsmap()
    svc = ["svc", 0]
    for t in sorted(tab, key=str):
        svc += [M.id_show(t, idx), tab[t][0], tab[t][1]]
    groups = [[i] for i in range(len(texts))] if split else [list(range(len(texts)))]
    lines = [["census"], svc, m.nscommand(0)]
    for g in groups:
        lines.append(["loader", 0, "cap", 0])
        for i in g:
            lines.append(["import", 0, env.write("f%d.xml" % i, texts[i]), 0, 0])
        lines += [["sort", 0], ["dump", 0], ["delete", 0], ["svcdump", 0]]
    lines += [["svcdump", 0, "free"], ["census"]]
    r = env.run(lines)
    if r.crash():
        o.fails = ["crash: " + r.crash()]
        return o
    by = {}
    for x in r.out:
        by.setdefault(x["cmd"], []).append(x)
    if doubled:
        c = by["census"]
        o.labels.append("repeated elements")
        o.nontrivial = True
        if c[0]["live"] != c[1]["live"]:
            o.fails.append("leak: %d allocations remain" % (c[1]["live"] - c[0]["live"]))
        return o
    for x in by["import"]:
        if not x["ok"]:
            return_fail = "import rejected: log %r" % (x["log"],)
            o.fails.append(return_fail)
            return o
    dead = False
    for k, g in enumerate(groups):
        v = view(m, g[0]) if split else m
        w = " (loader %d)" % k if split else ""
        so, du, sd = by["sort"][k], by["dump"][k], by["svcdump"][k]
        exp, _ = M.first_completed(v)
        uses = hidden is not None and any(x[1] == hidden for n in exp for x in n.refs)
        if uses:
            if so["ok"]:
                o.fails.append("unknown type accepted: sort succeeds although the service does not know reference type %s%s" % (M.id_show(hidden, idx), w))
            elif not errors(so["log"]):
                o.fails.append("silent: sort fails without an error message%s" % w)
            dead = True
        elif not so["ok"]:
            o.fails.append("sort rejected: log %r%s" % (so["log"], w))
        else:
            o.fails += [x + w for x in pick(M.compare(v, du, idx), {"refs", "parent", "nodes"})]
            o.fails += [x + w for x in M.order_violations(v, du, idx)]
        if sd["bad"]:
            o.fails.append("context: the service is called with a wrong context%s" % w)
        if sd["badref"]:
            o.fails.append("announcement: a node that is no reference type is announced%s" % w)
        want = sorted(M.id_show(n.id, idx) for n in exp if n.cls == "ReferenceType")
        if sorted(sd["added"]) != want:
            o.fails.append("announcement: the service is told of %r instead of %r%s" % (sorted(sd["added"]), want, w))
        elif hidden is None:
            at = {x: i for i, x in enumerate(sd["added"])}
            for n in exp:
                s = m.rtsuper.get(n.id)
                if s in tab and tab[s][1] == "learned" and M.id_show(s, idx) in at and at[M.id_show(s, idx)] > at[M.id_show(n.id, idx)]:
                    o.fails.append("announcement order: %s is announced before its supertype %s%s" % (M.id_show(n.id, idx), M.id_show(s, idx), w))
    if by["svcdump"][-1]["added"]:
        o.fails.append("announcement: after the end")
    c = by["census"]
    if c[0]["live"] != c[1]["live"]:
        o.fails.append("leak: %d allocations remain" % (c[1]["live"] - c[0]["live"]))
    learned = [t for t in own if t in tab and tab[t][1] == "learned"]
    o.nontrivial = bool(learned) and any(x[1] in learned for n in m.nodes for x in n.refs)
    o.labels += sorted(m.labels)
    if hidden:
        o.labels.append("a type the service never knows")
    if split:
        o.labels.append("service shared by consecutive loaders")
    if dead:
        o.labels.append("sort has to fail")
    return o


# ------------------------------------------------------------------ C31
_threads = None


def threads_exe():
    """built before the workers are forked"""
    global _threads
    _threads = build.build_threads()
    return build.build_driver()


TENV = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0", ASAN_OPTIONS="exitcode=66:detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1")


def damage(src, text):
    """sometimes a file that cannot be loaded: the failure paths run in parallel as well"""
    k = src.weighted([("whole", 6), ("cut", 1), ("bytes", 1)])
    if k == "whole" or len(text) < 20:
        return text, False
    i = src.int(len(text) - 10) + 5
    return (text[:i], True) if k == "cut" else (text[:i] + src.pick(["<", "&", "</UAObject>", "<x>", "\x01"]) + text[i:], True)


def c31_case(src, env):
    args, files, desc = [], {}, []
    nj = src.range(1, 5)
    bad = 0
    for j in range(nj):
        kind = src.weighted([("c", 4), ("s", 3), ("d", 1)])
        if kind == "s":
            m = S.gen(src, S.SCfg(nodes=(6, 40), types=(3, 12), reftypes=(2, 6), files=3, values=0.6, ext=0.0, weird_ids=0.4))
        else:
            m = M.gen_nodeset(src, Cfg(nodes=(8, 60), files=3, dups=0.1, values=0.5, ext=0.1, defs=0.5, uris=4, extra_aliases=(3, 60), bigtext=0.02))
            if src.chance(0.1):
                from .core import add_cycle
                add_cycle(src, m)
        args.append("--" + kind)
        for i, t in enumerate(texts_of(src, m)):
            t, b = damage(src, t)
            bad += b
            name = "j%df%d.xml" % (j, i)
            files[name] = t
            args.append(env.write(name, t))
        desc.append(kind + str(len(m.files)))
    n, rounds = src.pick([2, 3, 4, 8, 6]), src.pick([2, 3, 5, 8])
    o = Outcome()
    o.key = "%d %d\0" % (n, rounds) + "\0".join(files.values())
    o.files = files
    o.sample = {"threads": n, "rounds": rounds, "jobs": desc, "damaged files": bad}
    o.info = {"bytes": sum(len(t) for t in files.values()), "runs in parallel": n * rounds}
    o.nontrivial = n > 1 and any("NodeId" in t for t in files.values())
    o.labels = ["threads:%d" % n] + sorted({"job:" + d[0] for d in desc}) + (["damaged files"] if bad else [])
    if len(desc) == 1:
        o.labels.append("all threads load the same files")
    exe, tsan = _threads if _threads else build.build_threads()
    o.labels.append("ThreadSanitizer" if tsan else "AddressSanitizer")
    try:
        p = subprocess.run([exe, str(n), str(rounds)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240, env=TENV, cwd=env.dir)
    except subprocess.TimeoutExpired:
        o.fails = ["hang: %d threads did not end within 240 s" % n]
        return o
    err = p.stderr.decode("utf-8", "replace")
    ls = err.splitlines()
    if p.returncode == 3:
        o.fails = ["interference: " + next(l for l in ls if l.startswith("DIFF"))[:400]]
    elif p.returncode:
        head = [l.strip() for l in ls if "WARNING: ThreadSanitizer" in l or "ERROR: " in l or "runtime error" in l][:1]
        at = [l.strip() for l in ls if l.strip().startswith("#") and ("src/" in l)][:4]
        o.fails = ["data race: %s %s" % (head[0] if head else "exit code %d" % p.returncode, " | ".join(at)) if "ThreadSanitizer" in err else "crash: exit code %d %s" % (p.returncode, " ".join(head) or err[-300:])]
    return o


# ------------------------------------------------------------------ C32
_loc = None


def locales_exe():
    global _loc
    _loc = build.build_locales()
    return build.build_driver()


def damage_text(src, text):
    """replaces the text of an element by one whose characters depend on the locale"""
    import re
    v = [x for x in re.finditer(r">([^<>]{1,60})</", text) if "ns=" not in x.group(1) and x.group(1).strip()]
    if not v:
        return text
    typed = [x for x in re.finditer(r"(?:ByteString|Guid|DateTime|Double|Float|Boolean)>([^<>]{1,60})</", text)]
    v = src.pick(typed if typed and src.int(2) else v)
    if "ByteString" in v.group(0) and src.int(3):
        t = "QUJD\u00ea\u00fa" if src.int(2) else v.group(1)[:8 * src.int(3)] + src.pick(["\u00ea\u00fa", "\u00c0\u00c1", "\u00aa", "\u00ff\u00ff", "\u0410\u0411"])
        return text[:v.start(1)] + t + text[v.end(1):]
    t = src.pick(["1,5", "1.234,5", "1'000.5", "1.000.000,5", "1\u066b5", "\u0665", "QUJD\u00ea\u00fa", "\u00a0", "\u0085", "tr\u00fce", "TRUE", "FALSE", "\u0131", "I=5", "NS=1;I=5", "\u00b2", "1e5,5", "0,1", "0x1.8p3", "inf", "INFINITY", "nan(1)", "\u00e0", "\u00c5\u0085", "Mai", "1. Juni 2020", "2020-06-01T12:00:00+05:30", "2020-06-01", "12:00:00", "2020-06-01T12:00:00,5Z"])
    return text[:v.start(1)] + t + text[v.end(1):]


def c32_case(src, env):
    path, names = _loc if _loc else build.build_locales()
    from . import server as SV
    server = src.int(4) != 3
    if server:
        m = S.gen(src, S.SCfg(nodes=(8, 40), types=(3, 12), reftypes=(2, 6), files=2, values=0.95, ext=0.0, weird_ids=0.4))
    else:
        m = M.gen_nodeset(src, Cfg(nodes=(8, 60), files=2, values=0.8, ext=0.1, defs=0.5, bigtext=0.02))
    texts = texts_of(src, m)
    damaged = src.chance(0.35)
    if damaged:      # what cannot be understood must be treated alike, too
        from .core import damage_value, restructure
        for i in range(len(texts)):
            for _ in range(src.range(1, 3)):
                texts[i] = damage_text(src, texts[i]) if src.int(3) else damage_value(src, texts[i]) if src.int(3) else restructure(src, texts[i])
    o = base_outcome(m, texts)
    paths = [env.write("f%d.xml" % i, t) for i, t in enumerate(texts)]
    rel = src.chance(0.3)
    name = src.pick(names) if names and src.int(8) else src.pick(["C.utf8", "POSIX"])
    tz = src.pick([None, "Asia/Kathmandu", "XYZ-14:45", "America/New_York", "EST5EDT,M3.2.0,M11.1.0"])

    def lines(prep, ps):
        ps = list(ps)
        if server:
            return prep + SV.prelude(m) + [["load", 0, p, 0] for p in ps] + [["sdump", 0], ["sdelete", 0]]
        return prep + [["loader", 0, "cap"], m.nscommand(0)] + [["import", 0, p, 0, 1] for p in ps] + [["sort", 0], ["dump", 0], ["bidi", 0], ["delete", 0]]
    prep = [["env", "locale", path, name]]
    if tz:
        prep.append(["env", "tz", tz])
    if rel:
        prep.append(["env", "cd", env.dir])
    a = env.run(lines([], paths))
    b = env.run(lines(prep, [p.rsplit("/", 1)[1] if rel else p for p in paths]))
    for r in (a, b):
        if r.crash():
            o.fails = ["crash: " + r.crash()]
            return o
    ra, rb = a.out, [x for x in b.out if x["cmd"] != "env"]
    point = b.out[0].get("point")
    for x, y in zip(ra, rb):
        if x["cmd"] in ("import", "load", "sort"):
            x = {k: v for k, v in x.items() if k not in ("log",)}
            y = {k: v for k, v in y.items() if k not in ("log",)}
        if x != y:
            o.fails.append("environment: the result of %s differs under locale %s (decimal separator %r), time zone %s%s: %s" % (x["cmd"], name, point, tz, ", relative file name" if rel else "", first_difference(x, y)))
            break
    o.key += "%s %s %s" % (name, tz, rel)
    o.nontrivial = bool(b.out[0]["ok"]) and name not in ("C.utf8", "POSIX") and len(m.nodes) > 0
    o.labels += ["locale:" + name, "server" if server else "core"] + (["time zone"] if tz else []) + (["relative file name"] if rel else []) + (["damaged texts"] if damaged else [])
    o.sample["environment"] = [name, tz, rel]
    return o


def first_difference(x, y, at=""):
    if type(x) is type(y) and isinstance(x, dict):
        for k in x:
            if x[k] != y.get(k):
                return first_difference(x[k], y.get(k), at + "/" + k)
    if type(x) is type(y) and isinstance(x, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                n = p.get("id", i) if isinstance(p, dict) else i
                return first_difference(p, q, at + "/%s" % n)
    return ("%s: %r and %r" % (at, x, y))[:500]


# ------------------------------------------------------------------ C33
def c33_case(src, env):
    """sort in between, again, and on loaders which failed: always what one sort at the end gives"""
    m = M.gen_nodeset(src, Cfg(nodes=(8, 30), files=4, uris=3, refs=3, reftypes=(2, 8), parents=0.5, encodings=0.2, values=0.2, value_len=(2, 5), bigtext=0.0, ext=0.0, attrs=0.2, weird_ids=0.3, aliases=0.3, staged=True))
    cyc = src.chance(0.12) and add_cycle(src, m)
    texts = texts_of(src, m)
    parts = [(t, None) for t in texts]
    o = base_outcome(m, texts)
    if src.chance(0.25):      # a file that is imported again, as a whole or up to some point
        j = src.int(len(texts))
        t = texts[j].encode("utf-8")
        parts.insert(src.range(j + 1, len(texts)), (t if src.int(3) == 0 else t[:src.int(len(t))], j))
        o.labels.append("imported again")
    paths = [env.write("s%d.xml" % i, t) for i, (t, _) in enumerate(parts)]
    o.files.update({"s%d.xml" % i: t for i, (t, j) in enumerate(parts) if j is not None})
    hist, stages = [], []
    for i, p in enumerate(paths):
        hist.append(["import", 0, p, 0, 0])
        if i == len(paths) - 1 or src.int(3):
            stages.append(i)
            for _ in range(src.weighted([(1, 5), (2, 4), (3, 1)])):
                hist.append(["sort", 0])
                if src.int(4) or i == len(paths) - 1:
                    hist += [["dump", 0], ["bidi", 0]]
    if src.int(6) == 0:
        hist.insert(0, ["sort", 0])
    lines = [["loader", 0, "cap"], m.nscommand(0)] + hist + [["delete", 0]]
    for i in stages:
        lines += [["loader", 1, "cap"], m.nscommand(0)] + [["import", 1, p, 0, 0] for p in paths[:i + 1]] + [["sort", 1], ["dump", 1], ["bidi", 1], ["delete", 1]]
    o.key += repr([h[0] for h in hist])
    r = env.run(lines)
    if r.crash():
        o.fails = ["crash: " + r.crash()]
        return o
    runs, cur = [], None
    for x in r.out:
        if x["cmd"] == "loader":
            cur = []
            runs.append(cur)
        cur.append(x)
    want = {}
    for i, run in zip(stages, runs[1:]):
        want[i] = {x["cmd"]: x for x in run}
        want[i]["imports"] = [x["ok"] for x in run if x["cmd"] == "import"]
    at, ok, sorts, fails, dumps = -1, None, 0, 0, 0
    for x in runs[0]:
        if x["cmd"] == "import":
            at += 1
            if x["ok"] != want[stages[-1]]["imports"][at]:
                o.fails.append("import: file %d is %s after a sort" % (at, "accepted" if x["ok"] else "rejected, log %r" % (x["log"],)))
        elif x["cmd"] == "sort" and at >= 0:
            sorts += 1
            ok = x["ok"]
            fails += not ok
            if ok != want[at]["sort"]["ok"]:
                o.fails.append("sort: sort number %d, after %d files, returns %r instead of %r, log %r" % (sorts, at + 1, ok, not ok, x["log"]))
            elif not ok and not errors(x["log"]):
                o.fails.append("not logged: sort number %d returns false without a message" % sorts)
        elif x["cmd"] == "sort" and not x["ok"]:
            o.fails.append("empty: sort of an empty loader returns false, log %r" % (x["log"],))
        elif x["cmd"] == "dump" and ok:
            dumps += 1
            o.fails += same_report(want[at]["dump"], x, "after %d sorts" % sorts)[:3]
            if x["cnt"] != want[at]["dump"]["cnt"] or x["em"] != x["cnt"]:
                o.fails.append("count: %r reported after %d sorts, %r by one, count %r" % (x["em"], sorts, want[at]["dump"]["em"], x["cnt"]))
            if at == len(paths) - 1 and not cyc:
                o.fails += list(M.order_violations(m, x, m.nsmap()))[:2]
        elif x["cmd"] == "bidi" and ok:
            a, b = sorted(map(str, want[at]["bidi"]["refs"])), sorted(map(str, x["refs"]))
            if a != b:
                o.fails.append("encodings: %s after %d sorts, %s by one" % (M.short(b), sorts, M.short(a)))
        if o.fails:
            break
    o.info["sorts"] = sorts
    o.nontrivial = sorts >= 2 and dumps >= 1 and len(m.nodes) >= 3
    o.labels += (["cycle"] if cyc else []) + ["failed sorts" if fails and not cyc else "sorts:%d" % min(sorts, 6)]
    o.sample["calls"] = " ".join(h[0] for h in hist)
    return o


PROPS = [
    Prop("C30", c30_case,
         "at least one reference uses a reference type whose class the service learns only when the loader announces the type; distinct by file contents",
         6000, 120000, title="A reference service given by the caller decides every classification",
         assumptions=["the service treats HasSubtype and HasComponent as hierarchical; it answers by a table; types become known to it when they are announced",
                      "HasEncoding references are left out (the loader treats them specially)"]),
    Prop("C31", c31_case,
         "at least two threads work on at least one file that states nodes; distinct by number of threads, rounds and file contents",
         700, 12000, exe=threads_exe, title="Loaders used in different threads do not disturb each other",
         assumptions=["every thread has its own loader, logger context, reference service and server", "libxml2 itself is thread-safe once the process has more than one user of it",
                      "schedules are those of the operating system; ThreadSanitizer judges the happens-before order of each run, not only the interleaving that occurred"]),
    Prop("C32", c32_case,
         "the second load runs under a locale other than C/POSIX that could be set; distinct by file contents and environment",
         3500, 100000, exe=locales_exe, title="What is loaded does not depend on the environment of the process",
         assumptions=["locales de_DE, tr_TR, fa_IR, ru_RU, fr_FR in different character sets, compiled with localedef from the system's locale sources; time zones with odd offsets and daylight saving; texts of log messages are not compared"]),
    Prop("C33", c33_case,
         "at least two sorts and at least one report of a nodeset of 3 or more nodes; distinct by file contents and order of the calls",
         6000, 130000, title="Sorting again, alone or after further imports, gives what one sort gives",
         assumptions=["supertypes of reference types and parents which are only given by ParentNodeId are in the same or an earlier file (what is decided about them at the first sort is not taken back)",
                      "what a loader reports after a failed sort is not compared"]),
]
