"""Properties of loading into a server (backends/open62541, against the stand-in server of shim/)."""
import base64, copy, subprocess, tempfile
from ..engine import Prop, Outcome
from .. import build, drv
from .. import model as M
from .. import server_model as S
from ..model import nid, id_show
from ..server_model import SCfg
from .. import fuzzing
from .core import base_outcome, pick, malform, add_cycle, noise, _wellformed, _root_end, damage_value, hostile, restructure, corrupt, truncate, encode_as

ERROR = 500          # UA_LOGLEVEL_ERROR
ALL = {"nodes", "attrs", "refs", "values", "types", "ns", "ext"}


def texts_of(src, m, nz=None):
    nz = noise(src, ((0, 3), (1, 1), (2, 2))) if nz is None else nz
    s = src.seed()
    return [M.render(m, i, nz, s + i) for i in range(len(m.files))]


def prelude(m, s=0):
    l = [["server", s]] + [["addns", s, u] for u in m.pre]
    idx = {"urn:open62541.server.application": 1}
    k = 2
    for u in m.pre:
        if u not in idx:
            idx[u] = k; k += 1
    for n in getattr(m, "prenodes", []):
        sup = m.rtsuper[n.id]
        l.append(["snode", s, 32, snid(n.id, idx), snid(sup, idx), "i=45", 0 if n.bn[0] is None else idx[n.bn[0]], n.bn[1],
                  1 if M.boolof(n.attrs.get("IsAbstract", "")) else 0])
    return l


def snid(i, idx):
    return M.id_text(i, idx)


def lay():
    return S.Layout(S.layout_base())


def run_load(env, m, texts, ext=0, before=(), after=(), s=0):
    lines = prelude(m, s) + list(before)
    for i, t in enumerate(texts):
        lines.append(["load", s, env.write("f%d.xml" % i, t), ext])
    lines += list(after) + [["sdump", s]]
    r = (env.plain if getattr(m, "huge", False) else env.run)(lines)
    loads = [o for o in r.out if o["cmd"] == "load"]
    dumps = [o for o in r.out if o["cmd"] == "sdump"]
    return r, loads, dumps


def load_status(r, loads, n):
    c = r.crash()
    if c:
        return ["crash: " + c]
    for i, o in enumerate(loads):
        if not o["ok"]:
            return ["load rejected: file %d of %d, log %r" % (i, n, [x for x in o["log"] if x[0] >= ERROR])]
    return []


def outcome(m, texts):
    o = base_outcome(m, texts)
    o.key = "\0".join(m.pre) + "\1" + o.key
    for n in m.nodes:
        o.labels += ["value: " + x for x in n.xtra.get("labels", ())]
        if n.xtra.get("val"):
            t, arr, e = n.xtra["val"]
            o.labels.append("%s value%s" % (t.kind if t.kind != "builtin" else t.name, " array" if arr else ""))
    for t in m.types.values():
        o.labels.append("type: " + ("opt" if t.isopt() else t.kind) + (" derived" if t.base else ""))
    o.labels = sorted(set(o.labels))
    o.info["values"] = sum(1 for n in m.nodes if n.xtra.get("val"))
    o.info["types"] = len(m.types)
    return o


def servercheck(cfg, cats, nontrivial, post=None):
    def case(src, env):
        c = cfg(src) if callable(cfg) else cfg
        m = S.gen(src, c)
        texts = texts_of(src, m)
        o = outcome(m, texts)
        o.nontrivial = bool(nontrivial(m))
        r, loads, dumps = run_load(env, m, texts)
        o.fails = load_status(r, loads, len(texts))
        if not o.fails:
            o.fails = pick(S.compare_server(m, dumps[0], lay()), cats)
            if post and not o.fails:
                o.fails = post(src, env, m, dumps[0], o)
        return o
    return case


# ------------------------------------------------------------------ C20
def mutate_attributes(src, m):
    """the same nodes with other attributes"""
    m2 = copy.deepcopy(m)
    for n in m2.nodes:
        if n.xtra.get("enc") or src.int(4) == 0:
            continue
        n.dn = ("fr", "changed " + str(src.int(10)))
        n.desc = (None, "changed") if src.int(2) else None
        if src.int(2) and n.cls != "DataType":
            n.bn = (n.bn[0], n.bn[1] + "changed")
        old = dict(n.attrs)
        n.attrs = {}
        M.gen_attrs(src, n, SCfg(attrs=0.9), [nid(6)])
        for k in ("DataType", "IsAbstract"):
            n.attrs.pop(k, None)
            if k in old:
                n.attrs[k] = old[k]
        n.value = None
        n.xtra.pop("val", None)
    return m2


def c20(src, env):
    c = SCfg(nodes=(12, 90), types=(2, 10), files=2, attrs=0.7, values=0.3, bigtext=0.04, ext=0.3, weird_ids=0.4)
    m = S.gen(src, c)
    texts = texts_of(src, m)
    again = src.int(4) == 3
    o = outcome(m, texts)
    o.nontrivial = len(m.nodes) >= 3 and len({n.cls for n in m.nodes}) >= 2
    ext = src.int(2)
    if not again:
        r, loads, dumps = run_load(env, m, texts, ext)
        o.fails = load_status(r, loads, len(texts))
        if not o.fails:
            o.fails = pick(S.compare_server(m, dumps[0], lay(), exts=bool(ext)), {"nodes", "attrs", "ext"})
        if ext:
            o.labels.append("extension objects")
        return o
    o.labels.append("loaded again with other attributes")
    m2 = mutate_attributes(src, m)
    t2 = [M.render(m2, i, 0, src.seed()) for i in range(len(m2.files))]
    more = [["load", 0, env.write("again%d.xml" % i, t), 0] for i, t in enumerate(t2)]
    o.files.update({"again%d.xml" % i: t for i, t in enumerate(t2)})
    r, loads, dumps = run_load(env, m, texts, ext, after=[["sdump", 0]] + more)
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    o.fails = load_status(r, loads[:len(texts)], len(texts))
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], lay(), exts=bool(ext)), {"nodes", "attrs", "ext"}) or pick(S.compare_server(m, dumps[1], lay(), exts=bool(ext)), {"nodes", "attrs", "ext", "values"})
    return o


C20 = Prop("C20", c20, "one case = 1..2 generated nodesets of all eight node classes (attributes present or missing, any lexical form, big and special texts, extensions) loaded into a server of the standard nodes; all nodes, attributes and node contexts are compared with the model, and standard nodes must be unchanged; a quarter loads the same ids again with other attributes; non-trivial: 3 or more nodes of 2 or more classes", 5000, 90000)


# ------------------------------------------------------------------ C21
def c21_post(src, env, m, dump, o):
    if src.int(3):
        return []
    # loading the very same file again adds no reference
    texts = [o.files["f%d.xml" % i] for i in range(len(m.files))]
    o.labels.append("loaded again")
    r, loads, dumps = run_load(env, m, texts + texts)
    c = r.crash()
    if c:
        return ["crash: " + c]
    a, b = S.server_references(dump)[0], S.server_references(dumps[0])[0]
    f = []
    for x in sorted(b - a)[:3]:
        f.append("repeated load: adds the reference %r" % (x,))
    for x in sorted(a - b)[:3]:
        f.append("repeated load: removes the reference %r" % (x,))
    return f + S.server_references(dumps[0])[1]


def c21_bulk(src, env):
    """thousands of nodes below one parent or in chains, of one or two classes"""
    m = M.Model()
    m.types, m.pre = {}, []
    m.huge = src.chance(0.3)
    total = src.pick([66000, 65537] if m.huge else [300, 1025, 3000, 9000])
    for cls in [src.pick(sorted(x for x in ANCHOR if not m.huge or x not in ("DataType", "ReferenceType"))) for _ in range(1 if m.huge else src.range(1, 2))]:
        anchor, rt = ANCHOR[cls]
        first = None
        width = src.pick([total + 1, 300, 2, 1 if total < 3000 else 20][:2 if m.huge else 4])      # children of one parent; 1: a chain
        own = []
        for i in range(total):
            n = M.Node(cls, ("urn:a", "i", 1000 + len(m.nodes)))
            n.bn = ("urn:a", "n%d" % i)
            p = M.nid(anchor) if not own or cls in ("Method", "View") else own[(len(own) - 1) // width].id
            if cls == "Variable" and p != M.nid(anchor) and own[(len(own) - 1) // width].cls == "Variable":
                n.refs.append((False, M.nid(47), p))
            else:
                n.refs.append((False, M.nid(rt), p))
            if cls in ("Object", "Variable"):
                n.refs.append((True, M.nid(40), M.nid(58 if cls == "Object" else 63)))
            if cls == "ReferenceType":
                m.rtsuper[n.id] = p
            own.append(n); m.nodes.append(n)
    f = M.File(); f.table = ["urn:a"]; f.nodes = list(range(len(m.nodes)))
    if src.int(2):
        f.nodes.reverse()
    m.files = [f]
    texts = [M.render(m, 0, 0, 1)]
    o = outcome(m, texts)
    o.labels.append("many nodes")
    o.nontrivial = True
    r, loads, dumps = run_load(env, m, texts)
    o.fails = load_status(r, loads, 1)
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], lay()), {"refs", "nodes"})
    return o


ANCHOR = {"Object": (85, 47), "ObjectType": (58, 45), "Variable": (85, 47), "VariableType": (63, 45), "DataType": (24, 45), "ReferenceType": (33, 45), "Method": (85, 47), "View": (87, 35)}


def c21_chain(src, env):
    """a long chain of nodes whose classes change, each attempt adds a few of them only"""
    m = M.Model()
    m.types, m.pre = {}, []
    depth = src.pick([6, 12, 25, 60, 150])
    for i in range(depth):
        cls = src.weighted([("Object", 4), ("Variable", 4), ("View", 1)]) if depth < 100 and src.int(4) else ["Variable", "Object"][i % 2]
        n = M.Node(cls, ("urn:a", "i", 1000 + i))
        n.bn = ("urn:a", "n%d" % i)
        p = M.nid(85) if not m.nodes else m.nodes[-1].id if src.int(depth) else src.pick(m.nodes).id
        how = src.int(4)
        rt = M.nid(src.pick([47, 35]))
        if how:
            n.refs.append((False, rt, p))
        if how != 1:
            n.parent = p
        if cls in ("Object", "Variable"):
            n.td = M.nid(58 if cls == "Object" else 63)
        m.nodes.append(n)
    f = M.File(); f.table = ["urn:a"]; f.nodes = src.order(len(m.nodes))
    m.files = [f]
    texts = [M.render(m, 0, 0, 1)]
    o = outcome(m, texts)
    o.labels.append("chain across classes")
    o.nontrivial = True
    r, loads, dumps = run_load(env, m, texts)
    o.fails = load_status(r, loads, 1)
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], lay()), {"refs", "nodes"})
    return o


def c21(src, env):
    if src.chance(0.03):
        return c21_chain(src, env)
    return c21_bulk(src, env) if src.chance(0.004) else c21_plain(src, env)


c21_plain = servercheck(SCfg(nodes=(20, 150), types=(2, 8), reftypes=(3, 12), files=3, values=0.02, attrs=0.2, bigtext=0.0), {"refs", "nodes"}, lambda m: sum(len(n.refs) for n in m.nodes) >= 5, c21_post)
C21 = Prop("C21", c21,
           "one case = 1..3 generated nodesets (parents by inverse or forward reference, by ParentNodeId alone, several parents, parents of classes added later, chains across classes, own hierarchical and non-hierarchical reference types, references in one or both notations) loaded one after another; the set of references between all nodes is compared with the model from both ends, a third loads the files twice; long chains across the node classes; rarely up to 66000 nodes below one parent or in chains; non-trivial: 5 or more references", 5000, 90000)


# ------------------------------------------------------------------ C22, C23
def hasval(m, kinds):
    return any(n.xtra.get("val") and n.xtra["val"][0].kind in kinds for n in m.nodes)


def c22_cfg(src):
    return SCfg(nodes=(20, 60), types=(3, 8), reftypes=(0, 1), files=2, values=0.95, kinds="builtin", attrs=0.15, bigtext=0.04, members=(1, 2), aliases=0.1, huge=0.003)


C22 = Prop("C22", servercheck(c22_cfg, {"bvalues"}, lambda m: hasval(m, ("builtin", "alias"))),
           "one case = 1..2 generated nodesets of variables with scalar and array values of all built-in types and types derived from them (boundary values, all lexical forms, empty and missing parts, arrays of 0..40, rarely 4097 or 70000 elements); every stored value is compared with the value that was generated; non-trivial: at least one value of a built-in or derived type", 5000, 90000)


def c23_cfg(src):
    return SCfg(nodes=(12, 40), types=(6, 20), reftypes=(0, 1), files=2, values=0.95, kinds="custom", attrs=0.15, bigtext=0.02, members=(5, 14), aliases=0.2, huge=0.003)


C23 = Prop("C23", servercheck(c23_cfg, {"cvalues"}, lambda m: hasval(m, ("struct", "union", "enum"))),
           "one case = 1..2 generated nodesets with generated structures (nested, derived, with array and optional members, recursive through arrays), unions, enumerations and standard structures, and variables with values of them (members reordered or missing, arrays of structures); every member is compared with the value that was generated; non-trivial: at least one structure, union or enumeration value", 5000, 90000)


# ------------------------------------------------------------------ C24
def cname(t):
    return "UA_" + t.name if t.kind == "builtin" or (t.id[0] is None and t.id[2] in S.STD) else "T%x" % id(t)


def c_struct_check(m, l):
    """the layout model itself against the compiler"""
    src = ["#include <open62541/types.h>", "#include <open62541/types_generated.h>", "#include <stddef.h>"]
    done = set()
    asserts = []

    def ctype(t):
        if t.kind == "none" or t.abstract:
            return "UA_Variant"
        if t.kind == "builtin" or (t.id[0] is None and t.id[2] in S.STD):
            return "UA_" + t.name
        if t.kind == "alias":
            return "UA_" + t.basename
        return "T%d" % num[id(t)]
    num = {id(t): i for i, t in enumerate(m.types.values())}

    def emit(t):
        if id(t) in done or id(t) not in num:
            return
        done.add(id(t))
        if t.kind in ("alias", "none"):
            return
        n = "T%d" % num[id(t)]
        if t.kind == "enum":
            src.append("typedef enum { %s_X, __%s_F = 0x7fffffff } %s;" % (n, n, n))
        else:
            ms = [] if t.optset else t.members()
            for _, mt, arr, opt in ms:
                if not arr and not opt and not mt.abstract:
                    emit(mt)
            if not ms:
                src.append("typedef void *%s;" % n)
            else:
                b = []
                for j, (_, mt, arr, opt) in enumerate(ms):
                    c = ctype(mt)
                    if (arr or opt) and c[0] == "T":
                        c = "void"
                    b.append("struct { size_t s%d; %s *p%d; } " % (j, c, j) if arr else ("%s *" % c if opt else c + " "))
                    b[-1] += "m%d;" % j
                if t.kind == "union":
                    src.append("typedef struct { UA_UInt32 sw; union { %s } f; } %s;" % (" ".join(b), n))
                else:
                    src.append("typedef struct { %s } %s;" % (" ".join(b), n))
                off, end = l.of(t), 0
                for j, (_, mt, arr, opt) in enumerate(ms):
                    if t.kind == "union":
                        asserts.append("_Static_assert(offsetof(%s, f.m%d) == %d, \"offset\");" % (n, j, off[3][j]))
                    else:
                        asserts.append("_Static_assert(offsetof(%s, m%d) == %d, \"offset\");" % (n, j, end + off[3][j]))
                        end += off[3][j] + l.memb(ms[j])[0]
        s, a, _, _ = l.of(t)
        asserts.append("_Static_assert(sizeof(%s) == %d && _Alignof(%s) == %d, \"size\");" % (n, s, n, a))
    for t in m.types.values():
        emit(t)
    with tempfile.TemporaryDirectory(prefix="nlpbt-") as d:
        open(d + "/t.c", "w").write("\n".join(src + asserts) + "\n")
        p = subprocess.run(["clang", "-w", "-fsyntax-only", "-I" + build.VERIF + "/shim/include", d + "/t.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("layout model disagrees with the compiler:\n%s\n%s" % (p.stdout[:3000], "\n".join(src)))


def c24_nest(src, env):
    """types that use others many times on every level: few definitions, an exponential number of paths through them"""
    m = M.Model()
    m.types, m.pre = {}, []
    depth = src.pick([3, 6, 12, 40, 90])
    width = src.pick([2, 3, 10, 60, 255]) if depth < 20 else src.pick([2, 3, 10])
    split = src.int(depth) if src.int(3) == 0 else depth
    m.files = []
    layers = [[S.std(src.pick([1, 3, 6, 9, 11, 12, 14, 5]))]]
    leaf = not src.int(3)
    for d in range(depth):
        if d == 0 or d == split:
            f = M.File(); f.table = ["urn:a"]; f.nodes = []; m.files.append(f)
        layer = []
        for k in range(1 + src.int(2)):
            kind = "union" if src.int(4) else "struct"
            n = M.Node("DataType", ("urn:a", "i", 1000 + len(m.nodes)))
            n.bn = ("urn:a", "T%d" % len(m.nodes)); n.file = len(m.files) - 1
            n.refs.append((False, M.nid(45), M.nid(12756 if kind == "union" else 22)))
            t = S.Type(kind, n.bn[1], n.id)
            t.node = n
            pool = layers[-1] + (layers[-2] if len(layers) > 1 and src.int(2) else [])
            for j in range(width if kind == "union" else 1 + src.int(3)):
                mt = pool[j % len(pool)] if j == 0 or kind == "union" else S.std(src.pick([1, 6, 7] if leaf else [1, 6, 12, 11]))
                t.own.append(("m%d" % j, mt, False, False))
            n.defn = {"kind": kind, "union": "true" if kind == "union" else None, "os": None, "fields": [{"Name": a, "DataType": b.id} for a, b, _, _ in t.own]}
            f.nodes.append(len(m.nodes)); m.nodes.append(n)
            m.types[n.id] = t
            layer.append(t)
        layers.append(layer)
    for f in m.files:
        f.nodes = src.shuffle(f.nodes)
    texts = [M.render(m, i, 0, 1) for i in range(len(m.files))]
    o = outcome(m, texts)
    o.labels.append("types used repeatedly on every level")
    o.nontrivial = True
    r, loads, dumps = run_load(env, m, texts)
    o.fails = load_status(r, loads, len(texts))
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], lay()), {"types"})
    return o


def c24(src, env):
    if src.chance(0.015):
        return c24_nest(src, env)
    c = SCfg(nodes=(1, 4), types=(12, 40) if src.int(10) else (120, 400), reftypes=(0, 1), files=2 if src.int(3) == 0 else 1, values=0.0, attrs=0.1, bigtext=0.0, members=(6, 40))
    big = src.int(400) == 399
    if big:
        c = SCfg(nodes=(1, 2), types=(1300, 1300), reftypes=(0, 0), files=2, values=0.0, attrs=0.0, bigtext=0.0, members=(1, 2))
    m = S.gen(src, c)
    texts = texts_of(src, m)
    o = outcome(m, texts)
    o.nontrivial = any(t.members() for t in m.types.values())
    if big:
        o.labels.append("more types than one array holds")
    l = lay()
    if src.int(60) == 59:
        c_struct_check(m, l)
        o.labels.append("model compared with the C compiler")
    ids = [t for t in m.types.values() if t.kind != "none"]
    q = [src.pick(ids) for _ in range(min(4, len(ids)))] if ids else []
    idx = None
    r, loads, dumps = run_load(env, m, texts)
    o.fails = load_status(r, loads, len(texts))
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], l), {"types"})
    if not o.fails and q and src.int(4) == 0:
        # the look-up function of the interface
        idx, _ = S.nsindex(m, dumps[0])
        r, loads, dumps = run_load(env, m, texts, after=[["getct", 0, M.id_text(t.id, idx)] for t in q] + [["getct", 0, "ns=1;s=no such type"]])
        g = [x for x in r.out if x["cmd"] == "getct"]
        if r.crash():
            o.fails = ["crash: " + r.crash()]
        else:
            for t, x in zip(q, g):
                if x["name"] != t.name or x.get("id") != id_show(t.id, idx):
                    o.fails.append("look-up: of %s %s returns %r" % (t.name, id_show(t.id, idx), x))
            if g[-1]["name"] is not None:
                o.fails.append("look-up: of an unknown type returns %r" % (g[-1],))
    return o


C24 = Prop("C24", c24, "one case = 1..2 nodesets with up to 40 (sometimes 400, rarely 2600) generated data types (structures with all built-in, standard and custom members, arrays, optional members, inheritance, unions, enumerations, option sets, aliases, abstract types, forward and self references in any order, types that use others repeatedly over up to 90 levels); name, kind, encoding id, members, flags, paddings, size and pointer-freeness of every generated type are compared with a layout model that is itself checked against the C compiler in some cases; non-trivial: at least one type with members", 4500, 80000)


# ------------------------------------------------------------------ C25
def c25(src, env):
    c = SCfg(nodes=(8, 40), types=(3, 12), reftypes=(2, 6), files=5, uris=9, values=0.7, attrs=0.3, bigtext=0.0, pre=0.7, weird_ids=0.5)
    m = S.gen(src, c)
    texts = texts_of(src, m)
    o = outcome(m, texts)
    o.nontrivial = len({u for f in m.files for u in f.table}) >= 2
    r, loads, dumps = run_load(env, m, texts)
    o.fails = load_status(r, loads, len(texts))
    if not o.fails:
        o.fails = pick(S.compare_server(m, dumps[0], lay()), {"ns", "nsvalues", "nodes", "refs"})
    return o


C25 = Prop("C25", c25, "one case = 1..5 nodesets over up to 9 namespaces (each file with its own table, order, overlap and unused entries) loaded one after another into a server with 0..9 namespaces registered before; all ids, browse names, references, data types, parents and the NodeId and QualifiedName values are compared by URI; non-trivial: 2 or more namespaces in the tables", 4500, 80000)


# ------------------------------------------------------------------ C26
def prefixed(m, uri):
    """moves the nodes of a nodeset into a namespace of its own"""
    ren = {}
    for n in m.nodes:
        ren[n.id] = (uri, n.id[1], n.id[2])
    return ren


def failing(src, env):
    """(kind, list of load command tails)"""
    k = src.weighted([("missing", 1), ("empty", 1), ("truncated", 5), ("malformed", 3), ("cycle", 4), ("unknown reference type", 4), ("null", 2), ("directory", 1), ("read error", 2)])
    if k == "missing":
        return k, [0, env.dir + "/no/such/file.xml"], b""
    if k == "directory":
        return k, [0, env.dir], b""
    if k == "null":
        return k, [0, "-"] if src.int(2) else [63, "-"], b""
    if k == "empty":
        return k, [0, env.write("bad.xml", b"")], b""
    uris = ["urn:bad", "urn:a", "urn:bad2"][:1 + src.int(3)]
    m = S.gen(src, SCfg(nodes=(6, 30), types=(3, 8), reftypes=(2, 5), files=1, values=0.4, pre=0.0, uris=3))
    if k == "cycle":
        cls = src.pick(["Object", "Variable", "Method", "ObjectType", "DataType"])
        n = src.range(2, 5)
        ids = [("urn:bad", "i", 77000 + i) for i in range(n)]
        rt = nid(45) if cls in ("ObjectType", "DataType") else nid(47)
        new = []
        for i, x in enumerate(ids):
            nd = M.Node(cls, x); nd.bn = (None, "C%d" % i); nd.xtra = {"uris": set()}
            new.append(nd)
        for i, nd in enumerate(new):
            p = new[(i + 1) % n]
            if src.int(2):
                nd.refs.append((False, rt, p.id))
            else:
                p.refs.append((True, rt, nd.id))
        m.nodes += new
        m.files[0].nodes += [len(m.nodes) - n + i for i in range(n)]
        src.shuffle(m.files[0].nodes)
        m.complete_tables()
    elif k == "unknown reference type":
        nd = src.pick(m.nodes)
        rt = src.pick([("urn:bad", "i", 66000), ("urn:bad", "s", "none"), nid(1), nid(85), (None, "i", 987654)])
        nd.refs.append((bool(src.int(2)), rt, src.pick([nid(85), nid(58), src.pick(m.nodes).id])))
        m.complete_tables()
    t = M.render(m, 0, noise(src), src.seed())
    b = t.encode("utf-8")
    if k == "read error":
        return k, [0, env.write("bad.xml", b), src.pick([src.int(len(b) + 1), len(b), len(b) - 1 - src.int(40)])], b
    if k == "truncated":
        e = _root_end(t)
        b = b[:src.int(e)] if src.int(3) else b[:max(0, e - 1 - src.int(40))]
    elif k == "malformed":
        t2 = malform(src, t)
        b = t2.encode("utf-8", "surrogatepass") if not _wellformed(t2) else t.encode("utf-8")[:_root_end(t) - 5]
    return k, [0, env.write("bad.xml", b)], b


def bad_load(kind, cmd, ext):
    if kind == "read error":
        return [["iofault", cmd[2]], ["load"] + cmd[:2] + [ext], ["iofault", -1]]
    return [["load"] + cmd + [ext]]


def c26(src, env):
    kind, cmd, data = failing(src, env)
    m = S.gen(src, SCfg(nodes=(8, 30), types=(4, 10), reftypes=(2, 5), files=2, values=0.5))
    texts = texts_of(src, m)
    o = outcome(m, texts)
    o.key += repr(data) + repr(cmd) + kind
    o.labels.append("failure: " + kind)
    o.files["bad.xml"] = data
    o.nontrivial = True
    nf = len(texts)
    at = src.int(nf + 1)
    lines = prelude(m)
    ops = []
    def good(i):
        ops.append(("good", i)); lines.append(["load", 0, env.write("f%d.xml" % i, texts[i]), 0])
    for i in range(at):
        good(i)
    lines.append(["sdump", 0])
    reps = 1 + (src.int(4) == 0)
    for _ in range(reps):
        lines += bad_load(kind, cmd, src.int(2))
    lines.append(["sdump", 0])
    for i in range(at, nf):
        good(i)
    lines.append(["sdump", 0])
    r = env.run(lines)
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    if kind == "read error" and [x["hits"] for x in r.out if x["cmd"] == "iofault"][-1] == 0:
        o.nontrivial = False         # the file is read by other means
        return o
    loads = [x for x in r.out if x["cmd"] == "load"]
    d0, d1, d2 = [x for x in r.out if x["cmd"] == "sdump"]
    bad = loads[at:at + reps]
    o.fails = load_status(r, loads[:at] + loads[at + reps:], nf)
    for b in bad:
        if b["ok"]:
            o.fails.append("accepted: load of the file (%s) returns true" % kind)
        elif kind != "null" and not [x for x in b["log"] if x[0] >= ERROR]:
            o.fails.append("silent: load fails (%s) without an error message, log %r" % (kind, b["log"]))
    for k in ("nodes", "baseRefs", "baseChanged", "types"):
        if d0[k] != d1[k]:
            o.fails.append("partial: %s changed by the failed load (%s)" % (k, kind))
    if d1["ns"][:len(d0["ns"])] != d0["ns"]:
        o.fails.append("partial: namespaces changed by the failed load")
    if not o.fails:
        extra = [u for u in d1["ns"] if u not in d0["ns"]]
        diffs = [x for x in S.compare_server(m, d2, lay()) if not (x[0] == "ns" and extra)]
        o.fails = pick(diffs, ALL)
    return o


C26 = Prop("C26", c26, "one case = a failing load (missing, empty, directory, a read error or truncation at any byte, not well-formed, hierarchical cycle, unknown reference type, null server or path), once or twice, before, between or after 1..2 generated valid files; it must return false, log an error, leave nodes, references and data types as they were, and the valid files must give exactly what the model predicts; every case is non-trivial", 5000, 90000)


# ------------------------------------------------------------------ C27
B64 = None
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def c27_exe():
    """the driver and, if the helper functions are there, a program that calls them directly"""
    global B64
    try:
        B64 = build.build("b64", main=[build.VERIF + "/driver/b64.c"], sources=[])
    except build.BuildError:
        B64 = None
    return build.build_driver()


def gen_bytes(src, big=4000):
    n = src.range(0, 9) if src.int(3) else src.size(60, big)
    r = src.rngseed()
    k = src.int(4)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    return bytes(r.randrange(256) for _ in range(n))


def spaced(src, t):
    r = src.rngseed()
    k = src.pick([4, 64, 76, 1, 3])
    sep = src.pick(["\n", " ", "\t", "\r\n", " \n  "])
    t = sep.join(t[i:i + k] for i in range(0, len(t), k))
    return (sep + t if src.int(2) else t) + (sep if src.int(2) else "")


def bad_text(src):
    """text that is not base64 of anything, or almost"""
    r = src.rngseed()
    t = bytearray(base64.b64encode(gen_bytes(src, 300)))
    for _ in range(1 + src.int(3)):
        k = src.int(6)
        i = src.int(len(t) + 1)
        if k == 0:
            t[i:i + 1 + src.int(5)] = b""
        elif k == 1:
            t[i:i] = b"=" * (1 + src.int(4))
        elif k == 2:
            t[i:i] = bytes([1 + r.randrange(255)])
        elif k == 3:
            t = t[:i]
        elif k == 4:
            t[i:i] = bytes([ALPHA[r.randrange(64)]])
        else:
            t = bytearray(bytes(r.choice(b"=ABC+/ \n\x80\xff-_") for _ in range(src.int(12))))
    return bytes(t).replace(b"\0", b"A")


def c27(src, env):
    o = Outcome()
    o.nontrivial = True
    if B64 and src.int(4):
        ops, exp = [], []
        for _ in range(src.range(1, 60)):
            k = src.int(5)
            if k < 2:
                d = gen_bytes(src)
                ops.append(b"E " + d.hex().encode()); exp.append(("E", d))
            elif k < 4:
                d = gen_bytes(src)
                t = base64.b64encode(d).decode()
                if src.int(3) == 0:
                    t = spaced(src, t)
                ops.append(b"D " + t.encode().hex().encode()); exp.append(("D", d, t))
            else:
                t = bad_text(src)
                ops.append(b"D " + t.hex().encode()); exp.append(("X", t))
        o.key = b"\n".join(ops)
        o.sample = "\n".join(x.decode()[:150] for x in ops[:8])
        o.info = {"operations": len(ops)}
        o.labels = ["direct"] + sorted({{"E": "encode", "D": "decode", "X": "invalid text"}[e[0]] for e in exp})
        res = env.dir + "/b64.out"
        p = subprocess.run([B64, res], input=b"\n".join(ops) + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=drv.ENV, timeout=60)
        lines = open(res).read().split("\n")
        if p.returncode:
            o.fails = ["crash: status %d %s (operation %d: %s)" % (p.returncode, " | ".join(l for l in p.stderr.decode("utf-8", "replace").splitlines() if "ERROR" in l or "runtime" in l)[:400], len(lines) - 1, exp[min(len(lines) - 1, len(exp) - 1)])]
            return o
        for e, l in zip(exp, lines):
            f = l.split(" ")
            if e[0] == "E":
                w = base64.b64encode(e[1])
                if f[0] != str(len(w)) or f[1] != w.hex() or f[2] != "1":
                    o.fails.append("encode: %d bytes %s give %s instead of %s" % (len(e[1]), e[1][:30].hex(), bytes.fromhex(f[1])[:60] if len(f) > 1 and f[0] != "null" else l, w[:60]))
            elif e[0] == "D":
                if not e[1]:
                    if f[0] not in ("null", "0"):
                        o.fails.append("decode: %r gives %s" % (e[2], l))
                elif f[0] != str(len(e[1])) or f[1] != e[1].hex():
                    o.fails.append("decode: text of %d bytes %r gives %s" % (len(e[1]), e[2][:60], l[:150]))
            elif f[0] != "null" and (int(f[0]) < 0 or int(f[0]) > len(e[1])):
                o.fails.append("decode: %r gives %s bytes" % (e[1], f[0]))
        return o
    # through the whole loader
    n = src.range(1, 25)
    data, rows = [], []
    for i in range(n):
        if src.int(5) == 0:
            t = bad_text(src).decode("latin-1")
            t = "".join(c for c in t if c in "\n\t" or 32 <= ord(c) < 127 or ord(c) > 160)
            data.append(None)
        else:
            d = gen_bytes(src)
            t = base64.b64encode(d).decode()
            if src.int(3) == 0 and t:
                t = spaced(src, t)
            data.append(d)
        rows.append(t)
    esc = lambda t: t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    arr = bool(src.int(2))
    x = ['<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:a</Uri></NamespaceUris>']
    def var(i, val, rank):
        x.append('<UAVariable NodeId="ns=1;i=%d" BrowseName="1:v" DataType="i=15" ValueRank="%d"><References><Reference ReferenceType="i=47" IsForward="false">i=85</Reference></References><Value>%s</Value></UAVariable>' % (i, rank, val))
    if arr:
        var(1, "<ListOfByteString>" + "".join("<ByteString>%s</ByteString>" % esc(t) for t in rows) + "</ListOfByteString>", 1)
    else:
        for i, t in enumerate(rows):
            var(i + 1, "<ByteString>%s</ByteString>" % esc(t), -1)
    x.append("</UANodeSet>")
    text = "".join(x)
    o.key, o.files, o.sample, o.labels, o.info = text, {"f.xml": text}, text[:1000], ["by variables" + (" (array)" if arr else "")], {"values": n}
    r = env.run([["server", 0], ["load", 0, env.write("f.xml", text), 0], ["sdump", 0]])
    o.fails = load_status(r, [y for y in r.out if y["cmd"] == "load"], 1)
    if o.fails:
        return o
    nodes = {y["id"]: dict(y["attr"]).get("Value") for y in r.out[-1]["nodes"]}
    got = []
    if arr:
        v = nodes.get("2;i=1")
        got = v["v"] if v and v["arr"] and isinstance(v["v"], list) else None
        if got is None or len(got) != n:
            o.fails = ["value: array of %d byte strings is %s" % (n, M.short(v))]
            return o
    else:
        for i in range(n):
            v = nodes.get("2;i=%d" % (i + 1))
            got.append(v["v"] if v else None)
    for d, g, t in zip(data, got, rows):
        if d is None:
            continue
        if (g or "") != d.hex():
            o.fails.append("value: text of %d bytes %r gives %s" % (len(d), t[:60], M.short(g)))
    return o


C27 = Prop("C27", c27, "one case = up to 60 operations on the helpers (encode random bytes of any length, decode correct text with and without white space, decode damaged text) or a nodeset with up to 25 ByteString values loaded into a server, with Python's base64 as reference and ASan for damaged text; every case is non-trivial", 4000, 90000, exe=c27_exe)


# ------------------------------------------------------------------ C28
def make_pre(src, m):
    """some reference types exist in the server before"""
    m.prenodes = []
    pre = set()
    for n in m.nodes:
        if n.cls != "ReferenceType":
            continue
        sup = m.rtsuper[n.id]
        if (sup[0] is None or sup in pre) and src.int(2):
            pre.add(n.id)
            m.prenodes.append(n)
            n.dn, n.desc, n.inv = (None, n.bn[1]), None, None
            n.attrs = {"IsAbstract": n.attrs["IsAbstract"]} if "IsAbstract" in n.attrs else {}
            n.refs = [(False, nid(45), sup)]
            for u in (n.id[0], n.bn[0]):
                if u and u not in m.pre:
                    m.pre.append(u)
    for f in m.files:
        f.nodes = [i for i in f.nodes if m.nodes[i].id not in pre]


def c28(src, env):
    m = S.gen(src, SCfg(nodes=(14, 60), types=(6, 20), reftypes=(5, 14), files=4, values=0.5, attrs=0.3, bigtext=0.0, tdsub=0.15 if src.int(2) else 0.0))
    if src.int(2):
        make_pre(src, m)
    m.complete_tables()
    if src.int(3):      # one index per uri in both servers
        for u in sorted({u for f in m.files for u in f.table}):
            if u not in m.pre and u != "urn:open62541.server.application":
                m.pre.append(u)
    texts = texts_of(src, m)
    o = outcome(m, texts)
    o.nontrivial = len(m.files) >= 2 or bool(getattr(m, "prenodes", None))
    if getattr(m, "prenodes", None):
        o.labels.append("reference types in the server before")
    r, loads, dumps = run_load(env, m, texts)
    if not r.crash() and any(x["st"] for x in r.out if x["cmd"] == "snode"):
        raise RuntimeError("preparation of the server failed: %r" % [x for x in r.out if x["cmd"] == "snode"])
    o.fails = load_status(r, loads, len(texts))
    if o.fails:
        return o
    o.fails = pick(S.compare_server(m, dumps[0], lay()), ALL)
    if o.fails or len(m.files) < 2 or src.int(2):
        return o
    # all in one file
    one = copy.copy(m)
    f = M.File()
    f.nodes = [i for g in m.files for i in g.nodes]
    src.shuffle(f.nodes)
    for g in m.files:
        for u in g.table:
            if u not in f.table:
                f.table.append(u)
    src.shuffle(f.table)
    one.files = [f]
    t1 = M.render(one, 0, 0, src.seed())
    o.files["one.xml"] = t1
    o.labels.append("compared with one file")
    r, loads, d1 = run_load(env, one, [t1])
    o.fails = load_status(r, loads, 1)
    if not o.fails:
        o.fails = pick(S.compare_server(one, d1[0], lay()), ALL)
    if not o.fails and dumps[0]["ns"] == d1[0]["ns"]:
        a, b = {x["id"]: x for x in dumps[0]["types"]}, {x["id"]: x for x in d1[0]["types"]}
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                o.fails.append("split: data type %s is %s after loading %d files and %s after loading one" % (k, M.short(a.get(k)), len(m.files), M.short(b.get(k))))
        a, b = {x["id"]: x for x in dumps[0]["nodes"]}, {x["id"]: x for x in d1[0]["nodes"]}
        for k in sorted(set(a) | set(b)):
            if [a.get(k, {}).get(z) for z in ("c", "bn", "bns", "attr")] != [b.get(k, {}).get(z) for z in ("c", "bn", "bns", "attr")]:
                o.fails.append("split: node %s is %s after loading %d files and %s after loading one" % (k, M.short(a.get(k)), len(m.files), M.short(b.get(k))))
    return o


C28 = Prop("C28", c28, "one case = a generated nodeset with own reference and data types split into 1..4 files (types used by later files as parent, member, variable type and reference type), partly with reference types created in the server before, loaded one after another; the server is compared with the model and with the result of loading everything as one file; non-trivial: 2 or more files or types in the server before", 4000, 70000)

# ------------------------------------------------------------------ C29
ODDIDS = ["", "i=", "i=0", "i=22", "i=24", "i=29", "i=12", "i=12755", "i=884", "i=31", "i=33", "i=40", "i=45", "i=85", "i=99999", "ns=1;i=1", "ns=1;s=", "ns=7;i=5", "ns=99999;i=1", "g=1", "b=", "s=x", "abc", "ns=1", "i=4294967296"]


def damage_types(src, text):
    """definitions, references and attributes that contradict each other"""
    import re
    for _ in range(src.range(1, 5)):
        k = src.int(10)
        if k >= 7:      # one more reference, often to the node itself
            d = list(re.finditer("<(UA\\w+)\\b[^<>]*?\\sNodeId=[\"'](.*?)[\"'][^<>]*>(?:(?!<UA).)*?<References\\b[^<>/]*>", text, re.S))
            if d:
                if src.int(2):
                    d = [y for y in d if y.group(1) in ("UAReferenceType", "UADataType")] or d
                x = src.pick(d)
                ids = re.findall("<UA\\w+\\b[^<>]*?NodeId=[\"'](.*?)[\"']", text)
                text = text[:x.end()] + '<Reference ReferenceType="%s" IsForward="%s">%s</Reference>' % (src.pick(["i=45", "i=45", "i=47", "i=46", "i=40", "i=38", "i=33"] + ids), src.pick(["true", "false"]), x.group(2) if src.int(2) else src.pick(ids + ODDIDS)) + text[x.end():]
            continue
        if k == 0:
            c = list(re.finditer("<Field\\b[^<>]*?DataType=([\"'])(.*?)\\1", text))
            v = src.pick(ODDIDS)
            ids = re.findall("<UADataType[^<>]*?NodeId=[\"'](.*?)[\"']", text)
            if ids and src.int(2):
                v = src.pick(ids)
        elif k == 1:
            c = list(re.finditer("<(?:Field|UAVariable|UAVariableType)\\b[^<>]*?(?:ValueRank|ArrayDimensions|AccessLevel|EventNotifier)=([\"'])(.*?)\\1", text))
            v = src.pick(["", "-1", "1", "0", "-3", "2", "999999999999", "x", ",", ",,,", "1,", "0,0,0,0", "-2147483648", "1e9", "300"])
        elif k == 2:
            c = list(re.finditer("(?:IsOptional|IsUnion|IsOptionSet|IsAbstract|IsForward|Symmetric)=([\"'])(.*?)\\1", text))
            v = src.pick(["true", "false", "1", "", "TRUE"])
        elif k == 3:
            c = list(re.finditer("<Field\\b[^<>]*?(?<!\\w)(?:Name|Value)=([\"'])(.*?)\\1", text))
            v = src.pick(["", "x", "0", "-1", "99999999999"])
        elif k == 4:
            c = list(re.finditer("()>([^<>]*)</Reference>", text))
            v = src.pick(ODDIDS)
            ids = re.findall("NodeId=[\"'](.*?)[\"']", text)
            if ids and src.int(2):
                v = src.pick(ids)
        elif k == 5:
            c = list(re.finditer("(?:ReferenceType|ParentNodeId|NodeId|BrowseName|DataType)=([\"'])(.*?)\\1", text))
            v = src.pick(ODDIDS + [":", "1:", "9:x", "70000:x"])
            if c and src.int(2):
                v = src.pick(c).group(2)
        else:       # attribute away, or a definition twice / empty / for another class
            c = list(re.finditer(" (?:Name|DataType|NodeId|BrowseName|ReferenceType|ValueRank|Value|Alias)=([\"']).*?\\1()", text))
            if src.int(2) and c:
                x = src.pick(c)
                text = text[:x.start()] + text[x.end():]
                continue
            d = list(re.finditer("<Definition\\b.*?(?:</Definition>|/>)", text, re.S))
            if d:
                x = src.pick(d)
                text = text[:x.start()] + src.pick(["", x.group(0) * 2, "<Definition/>", '<Definition IsUnion="true"/>', src.pick(d).group(0)]) + text[x.end():]
            continue
        if c:
            x = src.pick(c)
            text = text[:x.start(2)] + v + text[x.end(2):]
    return text


def c29(src, env):
    o = Outcome()
    k = src.weighted([("values", 6), ("types", 6), ("both", 3), ("restructured", 3), ("corrupt", 2), ("truncated", 1), ("hostile", 2)])
    m = S.gen(src, SCfg(nodes=(6, 30), types=(3, 14), reftypes=(1, 6), files=2, values=0.9, ext=0.2, bigtext=0.01))
    data = []
    for t in texts_of(src, m):
        if src.int(6) == 0 and len(m.files) > 1:
            data.append(t.encode("utf-8", "surrogatepass")); continue
        if k in ("values", "both"):
            t = damage_value(src, t)
        if k in ("types", "both"):
            t = damage_types(src, t)
        b = t.encode("utf-8", "surrogatepass")
        if k == "restructured":
            b = restructure(src, t).encode("utf-8", "surrogatepass")
        elif k == "corrupt":
            b = corrupt(src, t)
        elif k == "truncated":
            b = truncate(src, t)
        elif k == "hostile":
            b = encode_as(src, hostile(src))
        data.append(b)
    if src.int(4) == 0:
        data.append(src.pick(data))     # the same file again
    o.key = b"\0".join(data)
    o.files = {"f%d.xml" % i: b for i, b in enumerate(data)}
    o.sample = {"kind": k, "file": data[0][:600].decode("utf-8", "replace")}
    o.nontrivial = True
    lines = prelude(m)
    for i, b in enumerate(data):
        lines.append(["load", 0, env.write("f%d.xml" % i, b), src.int(2)])
    lines += [["sdump", 0], ["sdelete", 0]]
    r = env.run(lines)
    loads = [x for x in r.out if x["cmd"] == "load"]
    o.labels = ["damage: " + k, "load ok" if loads and all(x["ok"] for x in loads) else "a load failed"]
    if r.crash():
        o.fails = ["crash: " + r.crash()]
    return o


def seeds_load(src, i):
    m = S.gen(src, SCfg(nodes=(3, 8), types=(2, 6), reftypes=(1, 3), files=2 if i % 5 == 0 else 1, values=0.9, bigtext=0.0, pre=0.0, extra_aliases=(1, 3), ext=0.1, members=(1, 4), attrs=0.3))
    return m


C29 = Prop("C29", c29, "libFuzzer (edge coverage, ASan+UBSan) on the load into a server with a tag-level mutator, plus generated cases: nodesets whose values do not fit their types, whose type definitions, references and attributes contradict each other, with exchanged or cut tags, loaded one after another into one server, read back completely, then server and generated types are released; a crash, a sanitizer report or no end within the CPU limit is a violation; non-trivial: every generated case, for the fuzzer inputs of distinct coverage", 5000, 120000, special=fuzzing.Fuzz("C29", 60000, 4000000, "load", seeds_load))

PROPS = [C20, C21, C22, C23, C24, C25, C26, C27, C28, C29]
