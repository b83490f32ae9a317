"""Builds the driver from /repo's current working tree (all *.c of src/ and of the open62541 backend)."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-ftrivial-auto-var-init=pattern"]
WRAP = ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "strdup", "fopen", "fopen64")]


def includes():
    return ["-I" + VERIF + "/shim/include", "-I" + REPO + "/include", "-I" + REPO + "/src",
            "-I" + REPO + "/backends/open62541/include", "-I" + REPO + "/backends/open62541/src", "-I/usr/include/libxml2"]


def repo_sources():
    return sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)) + sorted(glob.glob(REPO + "/backends/open62541/src/**/*.c", recursive=True))


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def _digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def _headers():
    r = []
    for d in (REPO + "/src", REPO + "/include", REPO + "/backends/open62541/src", REPO + "/backends/open62541/include", VERIF + "/shim", VERIF + "/driver", VERIF + "/fuzz"):
        for pat in ("*.h", "*.inc", "*.hpp"):
            r += glob.glob(d + "/**/" + pat, recursive=True)
    r.append(VERIF + "/driver/driver.c")      # included by the other drivers
    return sorted(r)


def build(kind="driver", main=None, extra=(), sources=None, link=(), san=None):
    """returns the path of the executable; objects are cached by content"""
    out = os.environ.get("VERIF_BUILD", VERIF + "/build")
    os.makedirs(out, exist_ok=True)
    main = main or [VERIF + "/driver/driver.c"]
    srcs = list(main) + sorted(glob.glob(VERIF + "/shim/src/*.c")) + (repo_sources() if sources is None else sources)
    flags = ["-std=gnu11", "-g1", "-O1", "-w", "-DUSE_CLEANUP_CUSTOM_DATATYPES=1"] + (SAN if san is None else san) + list(extra)
    hd = _digest(_headers(), " ".join(flags) + REPO + "1")
    objs, todo = [], []
    for s in srcs:
        o = "%s/%s.o" % (out, _digest([s], hd))
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))
    def one(so):
        tmp = so[1] + ".%d.tmp" % os.getpid()
        # undefined behaviour of the stand-in for open62541 is no finding
        own = ["-fno-sanitize=undefined", "-fwrapv"] if so[0].startswith(VERIF + "/shim/") else []
        _run(["clang"] + flags + own + includes() + ["-c", so[0], "-o", tmp])
        os.rename(tmp, so[1])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    exe = "%s/%s-%s" % (out, kind, _digest([], " ".join(objs) + " ".join(link)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        _run(["clang"] + (SAN if san is None else san) + list(extra) + objs + list(link) + ["-lxml2", "-lm", "-o", tmp])
        os.rename(tmp, exe)
    return exe


def build_driver():
    return build("driver", link=WRAP)


def build_plain():
    """the driver without sanitizers: freed memory is used again at once, and realloc may grow in place"""
    return build("plain", link=WRAP, san=[], extra=["-O2"])


def build_threads():
    """the thread driver under ThreadSanitizer, or under ASan where the former cannot start"""
    for san in (["-fsanitize=thread", "-fno-omit-frame-pointer"], None):
        exe = build("threads", main=[VERIF + "/driver/threads.c"], san=san, link=["-lpthread"])
        p = subprocess.run([exe, "2", "1", "--s", "--c"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode in (0, 3) or san is None:
            return exe, san is not None
    return exe, False


LOCALES = [("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("fa_IR", "UTF-8"), ("ru_RU", "KOI8-R"), ("fr_FR", "UTF-8")]


def build_locales():
    """(directory, names): locales with other separators and character classes; compiled from the system's sources"""
    out = os.environ.get("VERIF_BUILD", VERIF + "/build") + "/locale"
    os.makedirs(out, exist_ok=True)
    def one(l):
        n = "%s.%s" % l
        if not os.path.exists(out + "/" + n):
            tmp = "%s/%d.%s" % (out, os.getpid(), n)
            try:
                subprocess.run(["localedef", "-c", "--no-archive", "-i", l[0], "-f", l[1], tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.rename(tmp, out + "/" + n)
            except OSError:
                pass
        return n if os.path.exists(out + "/" + n + "/LC_NUMERIC") else None
    with ThreadPoolExecutor(5) as ex:
        return out, [n for n in ex.map(one, LOCALES) if n]


if __name__ == "__main__":
    print(build_driver())
    print(build_plain())
    print(build_threads())
    print(build_locales())
