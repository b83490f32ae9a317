"""Builds a driver around /repo's current sources and runs commands in it."""
import glob, json, os, shutil, subprocess, sys, tempfile, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import drv
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function,pointer-overflow", "-fno-sanitize-recover=all"]


def _build():
    from concurrent.futures import ThreadPoolExecutor
    exe = TMP + "/driver"
    src = [HERE + "/driver.c"] + glob.glob(HERE + "/shim/src/*.c") + glob.glob(REPO + "/src/**/*.c", recursive=True) + glob.glob(REPO + "/backends/open62541/src/**/*.c", recursive=True)
    inc = ["-I" + p for p in (HERE + "/shim/include", REPO + "/include", REPO + "/src", REPO + "/backends/open62541/include", REPO + "/backends/open62541/src", "/usr/include/libxml2")]

    def call(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-3000:]); print("demo: cannot build"); os._exit(3)

    def one(i):
        call(["clang", "-std=gnu11", "-g1", "-O1", "-w", "-DUSE_CLEANUP_CUSTOM_DATATYPES=1"] + SAN + inc + ["-c", src[i], "-o", "%s/%d.o" % (TMP, i)])
        return "%s/%d.o" % (TMP, i)
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, range(len(src))))
    call(["clang"] + SAN + objs + ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "strdup", "fopen", "fopen64")] + ["-lxml2", "-lm", "-o", exe])
    return exe


D = drv.Driver(_build())
N = [0]
NS = 'xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"'


def doc(nodes, uris=("http://a/",), aliases=()):
    s = '<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet %s>\n' % NS
    if uris:
        s += "<NamespaceUris>" + "".join("<Uri>%s</Uri>" % u for u in uris) + "</NamespaceUris>\n"
    if aliases:
        s += "<Aliases>" + "".join('<Alias Alias="%s">%s</Alias>' % a for a in aliases) + "</Aliases>\n"
    return s + nodes + "\n</UANodeSet>\n"


def node(cls, id, refs=(), attrs="", body="", bn=None):
    """refs: (type, target, forward)"""
    s = '<UA%s NodeId="%s" BrowseName="%s" %s><DisplayName>%s</DisplayName>' % (cls, id, bn or "1:n", attrs, "n")
    if refs:
        s += "<References>" + "".join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if f else ' IsForward="false"', x) for t, x, f in refs) + "</References>"
    return s + body + "</UA%s>\n" % cls


def file(text):
    N[0] += 1
    p = "%s/f%d.xml" % (TMP, N[0])
    open(p, "wb").write(text if isinstance(text, bytes) else text.encode("utf-8"))
    return p


def run(*lines):
    r = D.run([l.split(" ") if isinstance(l, str) else list(l) for l in lines])
    return r


def threads(*args):
    """runs jobs in threads, fails if they disturb each other"""
    inc = ["-I" + p for p in (HERE, HERE + "/shim/include", REPO + "/include", REPO + "/src", REPO + "/backends/open62541/include", REPO + "/backends/open62541/src", "/usr/include/libxml2")]
    src = [HERE + "/threads.c"] + glob.glob(HERE + "/shim/src/*.c") + glob.glob(REPO + "/src/**/*.c", recursive=True) + glob.glob(REPO + "/backends/open62541/src/**/*.c", recursive=True)
    for san in (["-fsanitize=thread"], []):
        exe = TMP + "/threads"
        p = subprocess.run(["clang", "-std=gnu11", "-g1", "-O1", "-w", "-DUSE_CLEANUP_CUSTOM_DATATYPES=1"] + san + inc + src + ["-lxml2", "-lm", "-lpthread", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-2000:]); print("demo: cannot build"); os._exit(3)
        if subprocess.run([exe, "1", "1", "--c"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            break
    for i in range(3 if san else 40):
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66"))
        check(p.returncode == 0, "threads disturb each other: %s" % p.stderr[:400])


def find(nodes, id):
    for n in nodes:
        if n["id"] == id:
            return n


def check(cond, msg):
    if not cond:
        print("DEMO FAILED:", msg)
        D.close()
        sys.exit(1)


def fine(r):
    check(r.crash() is None, r.crash())
    return r.out


def ok():
    D.close()
    print("demo: holds")
    sys.exit(0)
