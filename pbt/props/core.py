"""Properties of the loader itself (no server)."""
import json, random
from ..engine import Prop, Outcome
from .. import model as M
from ..model import Cfg


def load(env, m, texts, ext=0, census=True, dump="dump", extra=()):
    """imports the files, sorts, dumps, deletes; returns (Result, dict by command)"""
    lines = [["loader", 0, "cap"], m.nscommand(0)]
    if census:
        lines.insert(0, ["census"])
    for i, t in enumerate(texts):
        lines.append(["import", 0, env.write("f%d.xml" % i, t), 0, ext])
    lines += [["sort", 0], [dump, 0], ["bidi", 0]] + list(extra) + [["delete", 0]]
    if census:
        lines.append(["census"])
    r = (env.plain if getattr(m, "huge", False) else env.run)(lines)
    d = {"imports": [], "census": []}
    for o in r.out:
        c = o["cmd"]
        if c == "import":
            d["imports"].append(o)
        elif c == "census":
            d["census"].append(o)
        elif c in ("ids", "dump"):
            d["dump"] = o
        else:
            d[c] = o
    return r, d


def errors(log):
    return [x for x in log if x[0] >= 2]


def status(r, d, nfiles):
    """failures that break every property: crash, rejected valid input"""
    c = r.crash()
    if c:
        return ["crash: " + c]
    for i, o in enumerate(d["imports"]):
        if not o["ok"]:
            return ["import rejected: file %d of %d, log %r" % (i, nfiles, o["log"])]
    if not d["sort"]["ok"]:
        return ["sort rejected: log %r" % (d["sort"]["log"],)]
    return []


def base_outcome(m, texts, d=None):
    o = Outcome()
    o.key = "\0".join(texts)
    st = M.stats(m)
    o.files = {"f%d.xml" % i: t for i, t in enumerate(texts)}
    o.sample = {"stats": st, "file": texts[0][:1200]}
    o.info = {"nodes": st["nodes"], "references": st["refs"], "bytes": sum(len(t) for t in texts)}
    o.labels += ["files:%d" % st["files"]]
    if st["values"]:
        o.labels.append("values")
    if st["reftypes"]:
        o.labels.append("custom reference types")
    if st["aliases"]:
        o.labels.append("aliases")
    if st["defs"]:
        o.labels.append("definitions")
    return o


def noise(src, weights=((0, 2), (1, 1), (2, 2), (3, 2))):
    return src.weighted(weights)


def texts_of(src, m, nz=None):
    nz = noise(src) if nz is None else nz
    s = src.seed()
    return [M.render(m, i, nz, s + i) for i in range(len(m.files))]


def pick(diffs, cats):
    return [msg for c, msg in diffs if set(c.split(",")) & cats]


def modelcheck(cfg, cats, nontrivial, label=None, post=None, allnz=None):
    """generic check: generate, load, compare with the model, keep the differences of these categories"""
    def case(src, env):
        c = cfg(src) if callable(cfg) else cfg
        m = M.gen_nodeset(src, c)
        texts = texts_of(src, m, allnz)
        o = base_outcome(m, texts)
        r, d = load(env, m, texts, census=False)
        o.fails = status(r, d, len(texts))
        if not o.fails:
            idx = m.nsmap()
            o.fails = pick(M.compare(m, d["dump"], idx), cats)
            if post:
                o.fails += post(m, r, d, idx, o)
        o.nontrivial = bool(nontrivial(m, d))
        if label:
            o.labels += label(m, d)
        return o
    return case


# ------------------------------------------------------------------ C02
def c02_cfg(src):
    c = Cfg(nodes=(15, 150), files=3, dups=0.4, values=0.2, refs=2, ext=0.05, uris=4, bigtext=0.0, defs=0.3)
    if src.chance(0.1):      # mostly one class
        c.classes = [(x, 30 if x == src.pick([y for y, _ in Cfg.classes]) else 1) for x, _ in Cfg.classes]
    return c


def c02_post(m, r, d, idx, o):
    if "dup" in m.labels:
        o.labels.append("duplicate ids")
        n = len(M.first_completed(m)[1])
        logged = sum(len(errors(i["log"])) for i in d["imports"])
        if n and not logged:
            return ["duplicate: %d duplicate ids but no error logged" % n]
    return []


def bulk(src, env):
    """many nodes of one or two classes"""
    m = M.Model()
    cap = {"Object": 21000, "Variable": 21000, "Method": 2500}
    m.huge = src.chance(0.15)
    if m.huge:               # more than 16 bits can count
        m.labels.add("huge")
        cap = dict.fromkeys(["Object", "Variable", "Method", "ObjectType", "VariableType", "DataType", "ReferenceType", "View"], 66000)
    for cls in [src.pick(["Object", "ObjectType", "Variable", "VariableType", "DataType", "ReferenceType", "Method", "View"]) for _ in range(src.range(1, 2))]:
        c = cap.get(cls, 450)
        for _ in range(src.pick([20, 45, 101, 210, c // 2 + 1, c])):
            n = M.Node(cls, ("urn:a", "i", 1000 + len(m.nodes)))
            n.bn = ("urn:a", "n")
            n.refs.append((False, M.nid(45 if cls == "ReferenceType" else 47), M.nid(33 if cls == "ReferenceType" else 85)))
            if cls == "ReferenceType":
                m.rtsuper[n.id] = M.nid(33)
            m.nodes.append(n)
    f = M.File(); f.table = ["urn:a"]; f.nodes = list(range(len(m.nodes)))
    m.files = [f]
    if src.int(2):
        f.nodes.reverse()
    texts = [M.render(m, 0, 0, 1)]
    o = base_outcome(m, texts)
    o.files = {"f0.xml": texts[0]}
    o.labels.append("many nodes of a class")
    r, d = load(env, m, texts, census=False)
    o.fails = status(r, d, 1)
    if not o.fails:
        o.fails = pick(M.compare(m, d["dump"], m.nsmap()), {"nodes"})
    o.nontrivial = True
    return o


def c02(src, env):
    return bulk(src, env) if src.chance(0.006) else c02_plain(src, env)


c02_plain = modelcheck(c02_cfg, {"nodes"}, lambda m, d: len(m.nodes) >= 3 and len({n.cls for n in m.nodes}) >= 2, post=c02_post)
C02 = Prop("C02", c02,
           "one case = up to 66000 nodes (more than 16 bits can count) of one or two classes, or a generated nodeset of 1..3 files (all node classes, permuted file order, random id kinds, 40% with repeated ids) imported, sorted and iterated; non-trivial: at least 3 nodes of at least 2 classes", 9000, 220000)


# ------------------------------------------------------------------ C03
def deep_model(src):
    """large acyclic hierarchies: chains, stars, layers over up to 2000 nodes"""
    m = M.Model()
    n = src.range(50, 2000)
    shape = src.pick(["chain", "layers", "random", "star", "binary", "fan-in", "fan-out-in"])
    if shape.startswith("fan"):
        n = src.pick([64, 66, 129, 130, 256, 257, 258, 259, 300, 513, 514, 1026])
    m.huge = src.chance(0.02)
    if m.huge:
        n = src.pick(M.HUGE)
        m.labels.add("huge")
    m.labels.add(shape)
    rnd = src.rngseed()
    cls = src.pick(["Object", "Variable", "mixed"])
    ids = [("urn:a", "i", 1000 + i) for i in range(n)]
    if src.int(2):
        rnd.shuffle(ids)
    if src.int(4) == 3:
        ids = [("urn:a", "s", "n%d" % rnd.getrandbits(60)) for _ in ids]
    for i in range(n):
        nd = M.Node(cls if cls != "mixed" else rnd.choice(["Object", "Variable", "Method", "ObjectType"]), ids[i])
        nd.bn = ("urn:a", "n%d" % i)
        if i:
            ps = {"chain": [i - 1], "star": [0], "binary": [(i - 1) // 2], "layers": [max(0, i - 1 - rnd.randrange(40))],
                  "random": [rnd.randrange(i) for _ in range(rnd.randrange(1, 4))],
                  # all others are parents of the last one; or children of the first and parents of the last one
                  "fan-in": [] if i < n - 1 else range(n - 1), "fan-out-in": [0] if i < n - 1 else range(n - 1)}[shape]
            for p in ps:
                x = rnd.random()
                t = M.nid(rnd.choice([47, 35, 46, 49]))
                if x < 0.5:
                    nd.refs.append((False, t, ids[p]))
                elif x < 0.8 or nd.cls not in M.INSTANCE or nd.parent is not None or any(not r[0] for r in nd.refs):
                    m.nodes[p].refs.append((True, t, nd.id))
                else:
                    nd.parent = ids[p]
        m.nodes.append(nd)
    for nd in m.nodes:   # ParentNodeId only together with no or the same inverse reference
        if nd.parent is not None and any(not r[0] for r in nd.refs):
            nd.parent = next(r for r in nd.refs if not r[0])[2]
    f = M.File(); f.table = ["urn:a"]; f.nodes = list(range(n))
    k = src.int(3)
    if k == 1:
        f.nodes.reverse()
    elif k == 2:
        rnd.shuffle(f.nodes)
    m.files = [f]
    return m


def add_cycle(src, m):
    """closes a cycle of hierarchical references; returns its length or 0"""
    exp = [n for n in m.nodes]
    byid = {n.id: n for n in exp}
    kids = {}
    for n in exp:
        for fw, t, tg in n.refs:
            if m.is_hier(t) and tg in byid:
                a, b = (n.id, tg) if fw else (tg, n.id)
                if a != b and m.rtclass(t) == "h":
                    kids.setdefault(a, []).append(b)
    start = [a for a in kids]
    # a path downwards from some node, then an edge back
    plain = [n for n in exp if n.cls != "ReferenceType"]
    if len(plain) < 2:
        return 0
    if start and src.int(4):
        a = src.pick(sorted(start, key=str))
        path = [a]
        want = src.range(1, 12)
        while path[-1] in kids and len(path) <= want:
            path.append(src.pick(kids[path[-1]]))
    else:
        a, b = src.pick(plain), src.pick(plain)
        if a is b:
            return 0
        a.refs.append((True, M.nid(47), b.id))
        path = [a.id, b.id]
    if len(path) < 2 or path[0] == path[-1]:
        return 0
    first, last = byid[path[0]], byid[path[-1]]
    t = src.pick([M.nid(47), M.nid(35), M.nid(46)])
    if src.int(2) and last.cls != "ReferenceType":
        last.refs.append((True, t, first.id))
    elif first.cls != "ReferenceType":
        first.refs.append((False, t, last.id))
    else:
        return 0
    m.complete_tables()
    return len(path)


def c03(src, env):
    k = src.weighted([("normal", 5), ("cycle", 4), ("deep", 1)])
    if k == "deep":
        m = deep_model(src)
    else:
        m = M.gen_nodeset(src, Cfg(nodes=(12, 60), files=2, values=0.0, defs=0.0, ext=0.0, refs=4, uris=3, bigtext=0.0, dn=0.2, attrs=0.1, parents=0.7, weird_ids=0.3))
    cyc = 0
    if k == "cycle":
        cyc = add_cycle(src, m)
    texts = texts_of(src, m, 0 if k == "deep" else None)
    o = base_outcome(m, texts)
    r, d = load(env, m, texts, census=False, dump="ids")
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    for x in d["imports"]:
        if not x["ok"]:
            o.fails = ["import rejected: log %r" % (x["log"],)]
            return o
    idx = m.nsmap()
    if cyc:
        o.labels.append("cycle:%s" % (cyc if cyc < 5 else ">=5"))
        o.nontrivial = True
        if d["sort"]["ok"]:
            o.fails.append("cycle accepted: sort returned true for a hierarchy with a cycle of %d nodes" % cyc)
        elif not errors(d["sort"]["log"]):
            o.fails.append("cycle not logged: sort returned false without an error message")
        return o
    o.labels.append("acyclic" if k != "deep" else "deep")
    o.nontrivial = sum(len(n.refs) for n in m.nodes) > 3
    if not d["sort"]["ok"]:
        o.fails.append("sort rejected: an acyclic nodeset, log %r" % (d["sort"]["log"],))
        return o
    o.fails += list(M.order_violations(m, d["dump"], idx))[:3]
    return o


C03 = Prop("C03", c03, "one case = a generated acyclic hierarchy (inverse, forward, ParentNodeId-only edges, custom reference types, permuted files, up to 2000, rarely 70000 nodes in chains/layers/stars) or the same with one back edge closing a cycle; "
           "non-trivial: contains a cycle or more than 3 references. Oracle: ancestors computed from the abstract graph", 9000, 200000)

# ------------------------------------------------------------------ C04
C04 = Prop("C04", modelcheck(Cfg(nodes=(12, 60), files=2, values=0.05, defs=0.1, refs=1, ext=0.05, attrs=0.6, uris=4, bigtext=0.0, weird_ids=0.5, dtd=0.08), {"attrs"},
                             lambda m, d: sum(len(n.attrs) for n in m.nodes) >= 4),
           "one case = a generated nodeset with every attribute independently present or absent, in random order and with unknown and foreign attributes, compared attribute by attribute with the model; non-trivial: at least 4 optional attributes present", 9000, 220000)


# ------------------------------------------------------------------ C05
def c05_cfg(src):
    big = src.chance(0.25)
    if src.chance(0.006):
        return Cfg(nodes=(2, 3), reftypes=(0, 0), files=1, dn=1.0, refs=2, values=0.3, bigtext=0.4, hugetext=True, ext=0.0, attrs=0.0, defs=0.0)
    return Cfg(nodes=(6, 20) if not big else (3, 5), files=2, dn=1.0, refs=3, values=0.6, bigtext=0.3 if not big else 0.8, aliases=0.7, ext=0.0, attrs=0.2, weird_ids=0.5, defs=0.3)


def c05_post(m, r, d, idx, o):
    f = []
    for i, (x, im) in enumerate(zip(m.files, d["imports"])):
        if im["uris"] != x.table:
            f.append("uri: file %d handed out %s instead of %s" % (i, M.short(im["uris"]), M.short(x.table)))
    if any((n.dn and len(n.dn[1]) > 900) for n in m.nodes):
        o.labels.append("longer than a chunk")
    return f


C05 = Prop("C05", modelcheck(c05_cfg, {"text", "alias"}, lambda m, d: any(n.dn and len(n.dn[1] or "") > 3 for n in m.nodes), post=c05_post),
           "one case = a nodeset whose texts (1 to 9000 characters, all planes, markup characters) are written literally, as references, in CDATA and interrupted by comments at random places; non-trivial: a display name of more than 3 characters", 7000, 150000)


# ------------------------------------------------------------------ C06
def c06_cfg(src):
    x = src.int(10)
    if x < 7:
        return Cfg(nodes=(10, 50), huge=0.003, files=2, values=0.0, defs=0.0, ext=0.0, refs=6, reftypes=(5, 20), bigtext=0.0, attrs=0.1, dn=0.2, parents=0.6, aliases=0.3)
    return Cfg(nodes=(10, 40), files=2, values=0.0, defs=0.0, ext=0.0, refs=6, reftypes=(40, 400), deepreftypes=0.4, bigtext=0.0, attrs=0.0, dn=0.1, parents=0.6, aliases=0.1)


def c06_label(m, d):
    l = []
    if len(m.rtsuper) > 30:
        l.append("many reference types")
    if any(len(n.refs) > 10 for n in m.nodes):
        l.append("many references")
    return l


def c06(src, env):
    if not src.chance(0.1):
        return c06_plain(src, env)
    # a reference whose type is unknown must not get lost silently
    m = M.gen_nodeset(src, Cfg(nodes=(6, 20), files=2, values=0.0, defs=0.0, ext=0.0, refs=4, reftypes=(2, 8), bigtext=0.0, attrs=0.0, dn=0.1, aliases=0.2))
    u = "urn:unknown types"
    for _ in range(src.range(1, 3)):
        n = src.pick(m.nodes)
        n.refs.insert(src.int(len(n.refs) + 1), (src.int(2) == 0, (u, "i", src.pick([1, 4711])), src.pick([M.nid(85), src.pick(m.nodes).id])))
    m.complete_tables()
    texts = texts_of(src, m)
    o = base_outcome(m, texts)
    o.labels.append("unknown reference type")
    o.nontrivial = True
    r, d = load(env, m, texts, census=False)
    o.fails = [x for x in status(r, d, len(texts)) if not x.startswith("sort rejected")]
    if not o.fails and d["sort"]["ok"]:     # accepted: then it has to be there
        idx = m.nsmap()
        got = {x["id"]: x for x in d["dump"]["nodes"]}
        for n in m.nodes:
            for fw, t, tg in n.refs:
                if t[0] == u and [fw, M.id_show(t, idx), M.id_show(tg, idx)] not in sum([v for v in got.get(M.id_show(n.id, idx), {}).values() if isinstance(v, list)], []):
                    o.fails.append("lost: the reference of unknown type %s of %s, sort returned true" % (M.id_show(t, idx), M.id_show(n.id, idx)))
    return o


c06_plain = modelcheck(c06_cfg, {"refs", "parent"}, lambda m, d: sum(len(n.refs) for n in m.nodes) >= 5, label=c06_label)
C06 = Prop("C06", c06,
           "one case = a nodeset with references of standard and own (up to 400, nested up to 400 deep, defined before or after use) reference types and ParentNodeIds; the three reference lists are compared as multisets with the classification of the model; non-trivial: at least 5 references", 7000, 160000)


# ------------------------------------------------------------------ C07
def c07_post(m, r, d, idx, o):
    f = []
    for i, (x, im) in enumerate(zip(m.files, d["imports"])):
        if im["uris"] != x.table:
            f.append("callback: file %d called the namespace callback with %s instead of %s" % (i, M.short(im["uris"]), M.short(x.table)))
        if im["badctx"]:
            f.append("context: the namespace callback of file %d got another user context" % i)
    return f


C07 = Prop("C07", modelcheck(lambda src: Cfg(nodes=(12, 40), files=4, uris=9 if src.int(4) else 14, values=0.0, defs=0.5, ext=0.0, refs=4, bigtext=0.0, dn=0.1, attrs=0.4, aliases=0.6, weird_ids=0.4), {"ns", "nodes"},
                             lambda m, d: len({u for f in m.files for u in f.table}) >= 2, post=c07_post, label=lambda m, d: ["uris:%d" % min(9, len({u for f in m.files for u in f.table}))]),
           "one case = 1..4 files with namespace tables in different orders and overlaps, imported through a callback that maps URIs to indices up to 65535 in its own order; every index in ids, browse names, references, data types, parents, aliases and fields is compared; non-trivial: at least two URIs", 8000, 180000)

# ------------------------------------------------------------------ C08
C08 = Prop("C08", modelcheck(lambda src: Cfg(nodes=(10, 40), huge=0.002, files=3, aliases=1.0, extra_aliases=(20, 600) if src.int(3) else (300, 2000), values=0.0, ext=0.0, refs=5, bigtext=0.0, attrs=0.6, dn=0.1, defs=0.8, weird_ids=0.6), {"alias"},
                             lambda m, d: sum(len(f.aliases) for f in m.files) >= 2, label=lambda m, d: ["aliases:" + ("<100" if sum(len(f.alias_order) for f in m.files) < 100 else "<400" if sum(len(f.alias_order) for f in m.files) < 400 else ">=400")]),
           "one case = 1..3 files with 0..2000 aliases each (names that are prefixes of each other, long, with markup characters; ids of every kind) used for reference types, targets and data types; non-trivial: at least 2 aliases in use", 5000, 110000)

# ------------------------------------------------------------------ C09
C09 = Prop("C09", modelcheck(lambda src: Cfg(nodes=(5, 15), huge=0.003, reftypes=(0, 1), classes=[("Variable", 8), ("Object", 1), ("VariableType", 1)], values=1.0, value_depth=src.range(1, 6), value_len=(4, 200) if src.int(8) == 7 else (4, 25), refs=1, ext=0.0, attrs=0.1, dn=0.3, bigtext=0.03, aliases=0.1), {"values"},
                             lambda m, d: any(n.value and n.cls == "Variable" for n in m.nodes), label=lambda m, d: sorted({"kind:" + n.value["kind"] for n in m.nodes if n.value})),
           "one case = a nodeset of variables with scalar, list, extension object and list-of-extension-object values (nesting up to 60, names recurring at several levels and equal to names of the loader's grammar, empty and blank elements) compared as trees; non-trivial: at least one value", 8000, 170000)

# ------------------------------------------------------------------ C10
C10 = Prop("C10", modelcheck(lambda src: Cfg(nodes=(8, 40), huge=0.003, reftypes=(0, 1), classes=[("DataType", 8), ("Object", 1), ("Variable", 1)], defs=0.85, fields=(8, 60) if src.int(6) else (40, 400), refs=1, ext=0.0, attrs=0.2, dn=0.2, values=0.0, bigtext=0.0, aliases=0.6), {"defs"},
                             lambda m, d: any(n.defn and n.defn["fields"] for n in m.nodes), label=lambda m, d: sorted({"kind:" + n.defn["kind"] for n in m.nodes if n.defn})),
           "one case = data types with definitions of 0..400 fields (structures, unions, enumerations, option sets, every attribute present or defaulted, aliases, nested documentation) compared field by field; non-trivial: a definition with fields", 7000, 160000)


# ------------------------------------------------------------------ C11 (loader part; the server part is added in server.py)
def truncate(src, text):
    b = text.encode("utf-8")
    k = src.pick(["any", "tag", "attr", "text"])
    if k == "any":
        return b[:src.int(len(b))]
    marks = [i for i, ch in enumerate(b) if ch == {"tag": 60, "attr": 34, "text": 62}[k]]
    return b[:src.pick(marks) + src.int(2)] if marks else b[:1]


def corrupt(src, text):
    b = bytearray(text.encode("utf-8"))
    for _ in range(src.range(1, 3)):
        k = src.int(5)
        i = src.int(len(b))
        if k == 0:
            b[i] = src.pick(b"<>&\"'/ =\0x\xff")
        elif k == 1:
            del b[i:i + src.range(1, 20)]
        elif k == 2:
            b[i:i] = src.pick([b"<", b"</UAObject>", b"&undefined;", b"]]>", b"\0", b"\xc3", b"<x>", b"<![CDATA[", b"<!--"])
        elif k == 3:
            j = src.int(len(b))
            a, e = min(i, j), min(len(b), min(i, j) + 200)
            b[i:i] = b[a:e]
        else:
            j = b.find(b">", i)
            if j > 0:
                del b[i:j + 1]
        if not b:
            b = bytearray(b"x")
    return bytes(b)


SWAPS = ["UAObject", "UAVariable", "UADataType", "UAReferenceType", "References", "Reference", "Value", "Definition", "Field", "Extensions", "Extension", "DisplayName", "Alias", "Aliases", "NamespaceUris", "Uri", "InverseName", "UANodeSet", "ListOfInt32", "ExtensionObject", "Body", "TypeId", "Identifier", "Foo"]


def restructure(src, text):
    """well-formed but with element names exchanged"""
    import re
    for _ in range(src.range(1, 3)):
        a, b = src.pick(SWAPS), src.pick(SWAPS)
        if src.int(2):
            # one occurrence of an element, both tags
            ms = list(re.finditer("<%s(?=[ />])[^<>]*>[^<]*</%s>" % (a, a), text))
            if ms:
                x = src.pick(ms)
                t = x.group(0)
                t2 = "<" + b + t[1 + len(a):-(len(a) + 3)] + "</" + b + ">"
                text = text[:x.start()] + t2 + text[x.end():]
        else:
            text = re.sub("(</?)%s(?=[ />])" % a, "\\g<1>" + b, text)
    return text


def double(src, text):
    """elements that occur once occur several times, with the same or other contents"""
    import re
    names = ["DisplayName", "Description", "InverseName", "References", "Reference", "Value", "Definition", "Field", "Extensions", "Extension", "Alias", "Aliases", "NamespaceUris", "Uri", "Locale", "Text", "Identifier", "TypeId", "Body", "ExtensionObject"]
    for _ in range(src.range(1, 6)):
        nm = src.pick(names)
        ms = list(re.finditer(r"<((?:[\w-]+:)?%s)(?=[ />\n])(?:[^<>\"']|\"[^\"]*\"|'[^']*')*?(?:/>|>.*?</\1\s*>)" % nm, text, re.S))
        if not ms:
            continue
        a = src.pick(ms)
        b = src.pick(ms) if src.int(3) else a
        at = src.pick([a.end(), a.start()])
        text = text[:at] + b.group(0) * src.pick([1, 1, 2, 5]) + text[at:]
    if src.int(3) == 0:       # several type definitions, also of a type the file defines
        ids = re.findall(r"<UAReferenceType[^<>]*?NodeId=[\"']([^\"']*)", text)
        t = src.pick(ids) if ids and src.int(2) else "i=40"
        x = "<Reference ReferenceType=\"%s\">i=58</Reference>" % t * src.range(1, 3)
        text = re.sub(r"</References\s*>", x + "</References>", text, count=src.range(0, 4))
        for i in ids:
            if i == t:
                text = re.sub(r"(<UAReferenceType[^<>]*?NodeId=[\"']%s[\"'].*?<Reference[^<>]*>)[^<>]*" % re.escape(i), r"\g<1>i=40", text, count=1, flags=re.S)
    return text


def c11_server(src, env):
    """the life of a server: several loads, good and failing, then both are deleted"""
    from . import server as SV
    from .. import server_model as S
    m = S.gen(src, S.SCfg(nodes=(8, 40), types=(4, 14), reftypes=(2, 6), files=3, values=0.7, ext=0.1, weird_ids=0.6))
    texts = texts_of(src, m)
    o = base_outcome(m, texts)
    o.nontrivial = True
    ops = [["load", 0, env.write("f%d.xml" % i, t), src.int(2)] for i, t in enumerate(texts)]
    k = src.weighted([("good", 3), ("failing", 4), ("repeated", 1), ("restructured", 2)])
    if k == "failing":
        kind, cmd, data = SV.failing(src, env)
        k += " " + kind
        o.files["bad.xml"] = data
        i = src.int(len(ops) + 1)
        ops[i:i] = SV.bad_load(kind, cmd, src.int(2))
    elif k == "repeated":
        ops.append(ops[0])
    elif k == "restructured":
        i = src.int(len(texts))
        b = src.pick([restructure, damage_value, double])(src, texts[i])
        o.files["f%d.xml" % i] = b
        ops[i][2] = env.write("f%d.xml" % i, b)
    if src.int(3) == 0:
        ops.append(["sdump", 0])
    o.key = k + "\0".join(str(v) for v in o.files.values())
    o.labels.append("server history:" + k)
    r = env.run([["census"]] + SV.prelude(m) + ops + [["sdelete", 0], ["census"]])
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    cs = [x for x in r.out if x["cmd"] == "census"]
    # the first census is taken with the server of this case still unused
    if cs[1]["live"] != cs[0]["live"]:
        o.fails.append("server leak: %d blocks are not released (history %s)" % (cs[1]["live"] - cs[0]["live"], k))
    if cs[1]["fds"] != cs[0]["fds"]:
        o.fails.append("file handle: %d file handles are not closed (history %s)" % (cs[1]["fds"] - cs[0]["fds"], k))
    return o


def damage_value(src, text):
    """values whose text or structure does not fit the declared type"""
    import re
    for _ in range(src.range(1, 4)):
        vs = list(re.finditer(r"<Value>.*?</Value>", text, re.S))
        if not vs:
            return text
        v = src.pick(vs)
        t = v.group(0)
        k = src.int(4)
        leaves = list(re.finditer(r">([^<>]+)</", t))
        names = list(re.finditer(r"</?([A-Za-z_][A-Za-z0-9_]*)(?=[ />])", t))
        if k == 0 and leaves:
            l = src.pick(leaves)
            t = t[:l.start(1)] + src.pick(["", "x", "-1", "99999999999999999999999", "ns=9;i=5", "i=", "g=1", "b=%", "2020", "9999999-99-99T99:99:99Z", "_", "=", "NaN", "\n"]) + t[l.end(1):]
        elif k == 1:
            a = [x.group(1) for x in names if x.group(1) != "Value"]
            if a:
                n, q = src.pick(a), src.pick(a)
                t = re.sub("(</?)%s(?=[ />])" % re.escape(n), "\\g<1>" + src.pick([q, "Foo", "SwitchField", "EncodingMask", "ListOfInt32"]), t)
        elif k == 2:
            ds = list(re.finditer("DataType=([\"'])(.*?)\\1", text[:v.start()][-400:]))
            if ds:
                d = ds[-1]
                off = max(0, v.start() - 400)
                text = text[:off + d.start(2)] + src.pick(["i=%d" % src.int(31), "i=296", "i=884", "i=999", "ns=1;i=1000", ""]) + text[off + d.end(2):]
                continue
        else:
            l = list(re.finditer(r"<([A-Za-z_]\w*)>[^<>]*</\1>", t))
            if l:
                l = src.pick(l)
                t = t[:l.start()] + src.pick(["", l.group(0) * 3, "<%s/>" % l.group(1)]) + t[l.end():]
        text = text[:v.start()] + t + text[v.end():]
    return text


def c11(src, env):
    if src.int(3) == 2:
        return c11_server(src, env)
    k = src.weighted([("good", 3), ("truncated", 3), ("corrupt", 2), ("restructured", 3), ("doubled", 3), ("cycle", 2), ("unsorted", 1), ("duplicates", 2), ("missing", 1), ("read error", 2)])
    m = M.gen_nodeset(src, Cfg(nodes=(8, 40), files=3, dups=1.0 if k == "duplicates" else 0.0, weird_ids=0.6, values=0.6, ext=0.1, bigtext=0.02, extra_aliases=(3, 300)))
    if k == "cycle":
        add_cycle(src, m)
    texts = texts_of(src, m)
    data = [t.encode("utf-8") for t in texts]
    vi = src.int(len(data))
    if k == "truncated":
        data[vi] = truncate(src, texts[vi])
    elif k == "corrupt":
        data[vi] = corrupt(src, texts[vi])
    elif k == "restructured":
        data[vi] = restructure(src, texts[vi]).encode("utf-8")
    elif k == "doubled":
        data[vi] = double(src, texts[vi]).encode("utf-8")
    o = base_outcome(m, texts)
    o.key = b"\0".join(data) + k.encode()
    o.files = {"f%d.xml" % i: b for i, b in enumerate(data)}
    o.labels.append("history:" + k)
    o.nontrivial = True
    lines = [["census"], ["loader", 0, "default" if src.int(6) == 5 else "cap"], m.nscommand(0)]
    ext = src.int(2)
    for i, b in enumerate(data):
        mode = src.pick(["nofile", "nocb", "noctx"]) if k == "missing" and src.int(2) else ""
        p = env.write("f%d.xml" % i, b)
        if k == "read error" and i == vi:
            at = src.int(len(b) + 1)
            lines.append(["iofault", at])
            o.key += b"%d" % at
        lines.append(["import", 0, p + "x" if k == "missing" and not mode else p, 0, ext, mode])
        if k == "read error" and i == vi:
            lines.append(["iofault", -1])
        if src.int(8) == 0:      # sorted in between as well
            lines.append(["sort", 0])
    if k != "unsorted":
        lines.append(["sort", 0])
        if src.int(8) == 0:
            lines.append(["sort", 0])
    if src.int(2):
        lines += [["dump", 0], ["bidi", 0]]
    lines += [["delete", 0], ["census"]]
    r = env.run(lines)
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    cs = [x for x in r.out if x["cmd"] == "census"]
    if cs[1]["live"] != cs[0]["live"]:
        o.fails.append("leak: %d blocks are not released (history %s)" % (cs[1]["live"] - cs[0]["live"], k))
    if cs[1]["fds"] != cs[0]["fds"]:
        o.fails.append("file handle: %d file handles are not closed (history %s)" % (cs[1]["fds"] - cs[0]["fds"], k))
    return o


# ------------------------------------------------------------------ C12
def strip_dump(d):
    """what is reported, without identities of extension objects"""
    nodes = []
    for n in d["nodes"]:
        n = dict(n)
        n["ext"] = n["ext"] != -1
        for k in ("h", "n", "u"):
            n[k] = sorted(n[k])
        if n.get("value"):
            n["value"] = dict(n["value"], data=canon(n["value"]["data"]))
        for k in ("dn", "desc", "inv"):
            if k in n:
                n[k] = [M.nt(x) for x in n[k]]
        nodes.append(n)
    return nodes


def canon(t):
    if not t or len(t) != 3:
        return t
    if not t[2]:
        return [t[0], None]
    if t[1] == "p":
        return t
    return [t[0], "c", [canon(c) for c in t[2]]]


def same_report(a, b, what):
    """differences of two dumps as messages; order of nodes is not compared"""
    x, y = {}, {}
    for n in strip_dump(a):
        x.setdefault(n["id"], []).append(n)
    for n in strip_dump(b):
        y.setdefault(n["id"], []).append(n)
    f = []
    for i in x:
        if i not in y:
            f.append("node lost: %s is not reported %s" % (i, what))
        elif x[i] != y[i]:
            ks = [k for k in x[i][0] if x[i][0].get(k) != y[i][0].get(k)]
            f.append("node changed: %s differs %s in %s: %s / %s" % (i, what, ks, M.short([x[i][0].get(k) for k in ks]), M.short([y[i][0].get(k) for k in ks])))
    for i in y:
        if i not in x:
            f.append("node added: %s is only reported %s" % (i, what))
    return f


def c12(src, env):
    m = M.gen_nodeset(src, Cfg(nodes=(8, 30), files=2, ext=0.1))
    s = src.seed()
    plain = [M.render(m, i, 0, s) for i in range(len(m.files))]
    noisy = [M.render(m, i, 3, s + 7 + i, textnoise=src.pick([0, 2])) for i in range(len(m.files))]
    o = base_outcome(m, noisy)
    o.files.update({"plain%d.xml" % i: t for i, t in enumerate(plain)})
    res = []
    for t in (plain, noisy):
        r, d = load(env, m, t, census=False)
        f = status(r, d, len(t))
        if f:
            o.fails = f
            return o
        res.append(d)
    o.nontrivial = len(noisy[0]) != len(plain[0]) and len(m.nodes) >= 2
    o.fails = same_report(res[0]["dump"], res[1]["dump"], "with meaningless content added")
    if sorted(map(str, res[0]["bidi"]["refs"])) != sorted(map(str, res[1]["bidi"]["refs"])):
        o.fails.append("encodings changed: %r / %r" % (res[0]["bidi"]["refs"], res[1]["bidi"]["refs"]))
    if [i["uris"] for i in res[0]["imports"]] != [i["uris"] for i in res[1]["imports"]]:
        o.fails.append("uris changed: by meaningless content")
    # and it is the right report
    if not o.fails:
        o.fails = [msg for c, msg in M.compare(m, res[1]["dump"], m.nsmap())]
    return o


C12 = Prop("C12", c12, "one case = one abstract nodeset rendered twice, plainly and with comments, PIs, whitespace, prefixes, foreign and unknown attributes and unknown subtrees (containing known element names) between the known elements; both reports must be equal (metamorphic) and match the model; non-trivial: renderings differ and 2 or more nodes", 6000, 130000)


# ------------------------------------------------------------------ C13
def c13(src, env):
    k = src.weighted([("good", 3), ("truncated", 6), ("malformed", 4), ("missing", 1), ("empty", 1), ("arguments", 1), ("read error", 3)])
    o = Outcome()
    m = M.gen_nodeset(src, Cfg(nodes=(4, 15), files=2, bigtext=0.05, ext=0.1))
    texts = texts_of(src, m)
    lines = [["loader", 0, "cap"], m.nscommand(0)]
    vi = src.int(len(texts))
    data = [t.encode("utf-8") for t in texts]
    modes = [""] * len(data)
    paths = []
    if k == "truncated":
        b = data[vi]
        end = b.rstrip().rfind(b"</")
        end = b.find(b">", end)        # last byte of the root element
        # comments after the root may contain "</"
        root_end = _root_end(texts[vi])
        kk = src.int(3)
        cut = src.int(root_end) if kk == 0 else max(0, root_end - 1 - src.int(min(30, root_end))) if kk == 1 else _tag_cut(src, b, root_end)
        data[vi] = b[:cut]
        o.labels.append("cut:%s" % ("start" if cut < 40 else "end" if root_end - cut < 20 else "middle"))
    elif k == "malformed":
        t2 = malform(src, texts[vi])
        if _wellformed(t2):
            k = "good" if t2 == texts[vi] else "skip"
        data[vi] = t2.encode("utf-8", "surrogatepass")
    elif k == "empty":
        data[vi] = src.pick([b"", b" ", b"\n", b"<", b"abc", b"<a", b"\xef\xbb\xbf", b"    ", b"<!-- x -->", b"<?xml version=\"1.0\"?>", b"\0\0\0\0", b"<?xm", b"<?xml version=\"1.0\"?>\n", b"\n" * 5000])
    elif k == "arguments":
        modes[vi] = src.pick(["nocb", "noctx", "nofile"])
    elif k == "read error":      # instead of the remaining bytes, or instead of the end of the file
        n = len(data[vi])
        fault = ["iofault", src.pick([src.int(n + 1), src.int(min(n, 1100) + 1), n // 1024 * 1024 + 4 - 1024 * src.int(2), n, max(0, n - 1 - src.int(40))]), src.pick([0, 0, 1, 100, 1024, 4096])]
        fault[1] = max(0, min(fault[1], n))
    ext = src.int(2)
    for i, b in enumerate(data):
        p = env.write("f%d.xml" % i, b)
        if k == "read error" and i == vi:
            lines += [fault, ["import", 0, p, 0, ext, ""], ["iofault", -1]]
            continue
        if k == "missing" and i == vi:
            p = src.pick([env.dir + "/does-not-exist.xml", env.dir + "/sub/dir/x.xml", env.dir])
        lines.append(["import", 0, p, 0, ext, modes[i]])
    lines.append(["delete", 0])
    o.key = b"\0".join(data) + k.encode() + modes[vi].encode()
    o.files = {"f%d.xml" % i: b for i, b in enumerate(data)}
    if k == "read error":
        o.key += b"%d" % fault[1]
    o.sample = {"kind": k, "file": vi, "tail": data[vi][-200:].decode("utf-8", "replace")}
    o.labels.append("kind:" + k)
    o.nontrivial = k not in ("skip",)
    r = env.run(lines)
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    ims = [x for x in r.out if x["cmd"] == "import"]
    if k == "read error" and not [x for x in r.out if x["cmd"] == "iofault"][-1]["hits"]:
        k = "skip"       # the file is read by other means
        o.nontrivial = False
    for i, x in enumerate(ims):
        good = k == "good" or i != vi
        if k == "skip" and i == vi:
            continue
        if good and not x["ok"]:
            o.fails.append("rejected: import of the well-formed file %d returned false, log %r" % (i, x["log"]))
        elif good and errors(x["log"]):
            o.fails.append("error logged: by the successful import of a well-formed file: %r" % (x["log"],))
        elif not good and x["ok"]:
            o.fails.append("accepted: import of an unreadable file (%s, file %d, %d bytes) returned true" % (k + (" after %d bytes" % fault[1] if k == "read error" else modes[i]), i, len(data[i])))
        elif not good and not errors(x["log"]):
            o.fails.append("not logged: import of an unreadable file (%s) returned false without an error message" % (k + modes[i]))
    return o


def malform(src, text):
    """usually not well-formed any more"""
    bad = [lambda t: t.replace("</References>", "</Reference>", 1), lambda t: t + "<x>", lambda t: t.replace(">", " a='1' a='2'>", 2), lambda t: t.replace("</UANodeSet>", "</UANodeset>"),
               lambda t: t.replace("<UA", "<UA<", 1), lambda t: "x" + t, lambda t: t + "text", lambda t: t.replace("=\"", "=", 1), lambda t: t + t, lambda t: t.replace("</UANodeSet", "<UAObject></UANodeSet"), lambda t: _insert_mid(src, t, src.pick(["&undefined;", "<", "&", "\x01", "</foo>", "]]>", "<a b=c/>", "&#0;", "&#xFFFE;", "<1a/>", "\x00"]))]
    return src.pick(bad)(text)


def _insert_mid(src, t, s):
    body = t.find("UANodeSet")
    i = t.find(">", body) + 1
    gts = [j for j in range(i, len(t)) if t[j] == ">"]
    if len(gts) < 2:
        return t + s
    j = src.pick(gts[:-1]) + 1
    return t[:j] + s + t[j:]


def _tag_cut(src, b, end):
    marks = [i for i in range(end) if b[i] in b"<>\"'/&"]
    return min(end - 1, src.pick(marks) + src.int(2)) if marks else 0


def _root_end(t):
    """offset (in bytes) one past the end of the root element"""
    import xml.parsers.expat
    p = xml.parsers.expat.ParserCreate()
    st = {"d": 0, "end": None}
    b = t.encode("utf-8")

    def s(n, a):
        st["d"] += 1

    def e(n):
        st["d"] -= 1
        if st["d"] == 0:
            i = p.CurrentByteIndex
            st["end"] = b.find(b">", i) + 1
    p.StartElementHandler, p.EndElementHandler = s, e
    p.Parse(b, True)
    return st["end"]


def _wellformed(t):
    import xml.parsers.expat
    p = xml.parsers.expat.ParserCreate(namespace_separator=" ")
    try:
        p.Parse(t.encode("utf-8", "surrogatepass"), True)
        return True
    except (xml.parsers.expat.ExpatError, UnicodeError):
        return False


C13 = Prop("C13", c13, "one case = a generated nodeset file that is well-formed, cut at a random byte before the end of its root element, made not well-formed (judged by expat), missing, empty, passed with missing arguments, or whose reading fails after a random number of bytes (injected), alone or among good files; non-trivial: every case of a known verdict", 9000, 220000)


# ------------------------------------------------------------------ C14
def c14(src, env):
    """a random interleaving of several loaders; each must report what it reports alone"""
    n = src.range(2, 4)
    ms, hist = [], []
    for j in range(n):
        m = M.gen_nodeset(src, Cfg(nodes=(5, 15), files=2, uris=3, ext=0.05, bigtext=0.0, reftypes=(3, 8)))
        k = src.weighted([("good", 6), ("truncated", 2), ("cycle", 1), ("missing", 1)])
        if k == "cycle":
            add_cycle(src, m)
        texts = texts_of(src, m)
        data = [t.encode("utf-8") for t in texts]
        if k == "truncated":
            data[-1] = truncate(src, texts[-1])
        ps = [env.write("l%df%d.xml" % (j, i), b) for i, b in enumerate(data)]
        if k == "missing":
            ps.append(env.dir + "/nope.xml")
        ext = src.int(2)
        steps = [["loader", j, "cap"]] + [["import", j, p, j, ext] for p in ps] + [["sort", j], ["dump", j], ["bidi", j], ["delete", j]]
        if src.int(8) == 7:
            steps = [s for s in steps if s[0] != "sort"]
        ms.append((m, data)); hist.append(steps)
    # the last loader may import the same files as the first one
    if src.int(2):
        j = n - 1
        hist[j] = [[s[0], j] + (s[2:] if s[0] != "import" else [s[2], j] + s[4:]) for s in hist[0]]
        ms[j] = ms[0]
    # without sanitizers the memory of a deleted loader is used again at once
    plain = src.int(2)
    run = env.plain if plain else env.run
    alone = []
    for j in range(n):
        r = run([ms[j][0].nscommand(j)] + hist[j])
        alone.append((r.crash(), r.out[1:]))
    # interleave
    pos, seq = [0] * n, []
    while any(pos[j] < len(hist[j]) for j in range(n)):
        live = [j for j in range(n) if pos[j] < len(hist[j])]
        j = src.pick(live)
        seq.append((j, hist[j][pos[j]])); pos[j] += 1
    r = run([ms[j][0].nscommand(j) for j in range(n)] + [s for _, s in seq])
    o = Outcome()
    o.files = {"l%df%d.xml" % (j, i): b for j in range(n) for i, b in enumerate(ms[j][1])}
    o.key = b"\0".join(o.files[k] for k in sorted(o.files)) + repr([j for j, _ in seq]).encode()
    o.sample = {"order": [(s[0], s[1]) for _, s in seq]}
    o.nontrivial = any(seq[i][0] != seq[i + 1][0] for i in range(len(seq) - 1))
    o.labels.append("loaders:%d" % n)
    if plain:
        o.labels.append("without sanitizers")
    if any(a[0] for a in alone):
        o.fails = ["crash: " + [a[0] for a in alone if a[0]][0]]
        return o
    if r.crash():
        o.fails = ["crash: only in the interleaving: " + r.crash()]
        return o
    got = [[] for _ in range(n)]
    for (j, s), x in zip(seq, r.out[n:]):
        got[j].append(x)
    for j in range(n):
        a, b = norm14(alone[j][1]), norm14(got[j])
        if a != b:
            for x, y in zip(a, b):
                if x != y:
                    o.fails.append("result depends on other loaders: loader %d, %s: %s / alone %s" % (j, x.get("cmd"), *[M.short(z, 600) for z in firstdiff(y, x)]))
                    break
    return o


def firstdiff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a.get(k) != b.get(k):
                return firstdiff(a.get(k), b.get(k))
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if x != y:
                return firstdiff(x, y) if isinstance(x, (dict, list)) else (a, b)
        return len(a), len(b)
    return a, b


def norm14(out):
    """extension objects are numbered over all loaders: renumber; addresses never appear"""
    ids = {}

    def ren(i):
        return -1 if i == -1 else ids.setdefault(i, len(ids))
    r = []
    for o in json.loads(json.dumps(out)):
        for e in o.get("ev", []):
            e[1] = ren(e[1])
        for nd in o.get("nodes", []):
            nd["ext"] = ren(nd["ext"])
        r.append(o)
    return r


C14 = Prop("C14", c14, "one case = 2..4 loaders with generated histories (imports of 1..2 files, failing imports, cycles, deletion), executed alone in fresh processes and in a random interleaving in one process, half of them without sanitizers so that freed memory is used again at once; every result must be identical; non-trivial: the interleaving switches between loaders", 3500, 80000)


# ------------------------------------------------------------------ C15
def c15(src, env):
    o = Outcome()
    init = src.weighted([(1024, 3), (1, 1), (2, 1), (7, 1), (16, 1), (100, 1), (4096, 1), (1 << 20, 1), (33, 1)])
    n = src.range(1, 12) if src.int(3) else src.range(10, 120)
    ops = []
    left, tot = init, 0
    for _ in range(n):
        k = "r" if src.int(3) == 2 else "m"
        if src.int(3) == 0:   # around what is left in the current region
            sz = max(1, left + src.pick([0, 1, -1, 2, -2, 3, 7]))
        else:
            sz = src.weighted([(1, 3), (src.range(1, 40), 4), (src.range(1, 300), 3), (src.range(1, init + 2), 2), (init, 1), (init * 2 + 1, 1), (5000, 1)])
        sz = min(sz, max(1, (3 << 20) - tot))
        tot += sz
        left = max(0, left - sz) or init
        ops.append("%s%d" % (k, sz))
    r = env.run([["arena", init] + ops])
    o.key = "%d %s" % (init, ops)
    o.sample = {"init": init, "ops": ops[:40]}
    o.nontrivial = len(ops) >= 3
    o.labels.append("init:%d" % init)
    c = r.crash()
    if c:
        o.fails = ["crash: " + c]
        return o
    x = r.out[0]
    o.info = {"operations": len(ops), "moves": x["moves"]}
    if x["moves"]:
        o.labels.append("block moved")
    if x["err"]:
        o.fails = ["arena: %s (initial size %d, operations %s)" % (x["err"], init, " ".join(ops)[:600])]
    return o


C15 = Prop("C15", c15, "one case = an initial size and a sequence of 1..120 malloc/realloc requests (sizes biased to the remaining space), every block filled with a pattern and all blocks compared with their shadow after every operation; non-trivial: at least 3 operations", 12000, 400000)


# ------------------------------------------------------------------ C16
def ext_events(t, out, obj, declared=()):
    name, attrs, text, kids = t
    attrs = attrs + [(a, v) for e, a, v in declared if e == name]
    out.append(["s", obj, name, sorted([k, v] for k, v in attrs)])
    for c in kids:
        ext_events(c, out, obj, declared)
    out.append(["e", obj, name, None if kids else M.nt(text), bool(kids)])


def c16(src, env):
    m = M.gen_nodeset(src, Cfg(nodes=(6, 20), files=2, ext=0.7, refs=2, values=0.3, attrs=0.1, bigtext=0.02, dups=0.0, big=0.12, huge=0.002))
    if src.chance(0.06):      # attributes by a declaration
        m.extdtd = [("Foo", "declared", src.pick(["d", "", "Größe"]))] + [("a", "declared2", "x")] * src.int(2)
    texts = texts_of(src, m)
    o = base_outcome(m, texts)
    r, d = load(env, m, texts, ext=1)
    o.fails = status(r, d, len(texts))
    o.nontrivial = any(n.exts for n in m.nodes)
    if o.fails:
        return o
    idx = m.nsmap()
    num = {}
    k = 0
    objs = {}
    for i, f in enumerate(m.files):
        exp = []
        for ni in f.nodes:
            n = m.nodes[ni]
            for e in n.exts:
                exp.append(["n", k])
                for t in e:
                    ext_events(t, exp, k, m.extdtd)
                exp.append(["f", k])
                objs.setdefault(n.id, []).append(k)
                k += 1
        got = d["imports"][i]["ev"]
        g2 = []
        for e in got:
            if e[0] == "s":
                for a in e[3]:
                    if a[1] is not None or a[2] is not None:
                        o.fails.append("extension attribute: has an unexpected prefix %r" % (a,))
                g2.append(["s", e[1], e[2], sorted([a[0], a[3]] for a in e[3])])
            else:
                g2.append(e)
        if len(g2) != len(exp):
            o.fails.append("extension events: %d calls instead of %d for file %d" % (len(g2), len(exp), i))
        for x, y in zip(exp, g2):
            if x[0] == "e":
                ok = y[:3] == x[:3] and (M.nt((y[3] or "").strip(" \t\r\n")) is None if x[4] else M.nt(y[3]) == x[3])
            else:
                ok = x == y
            if not ok:
                o.fails.append("extension events: call %s instead of %s" % (M.short(y), M.short(x)))
                break
    for nd in d["dump"]["nodes"]:
        n = next((n for n in m.nodes if M.id_show(n.id, idx) == nd["id"]), None)
        if n is None:
            continue
        want = objs.get(n.id, [])
        if (want and nd["ext"] not in want) or (not want and nd["ext"] != -1):
            o.fails.append("extension object: node %s has object %d instead of one of %r" % (nd["id"], nd["ext"], want))
    # without a handler the rest is the same
    r2, d2 = load(env, m, texts, ext=0, census=False)
    f2 = status(r2, d2, len(texts))
    if f2:
        o.fails += f2
    else:
        a, b = d["dump"], d2["dump"]
        for x in a["nodes"] + b["nodes"]:
            x["ext"] = -1 if x["ext"] != -2 else -2
        o.fails += same_report(a, b, "without a handler")
        if any(i["ev"] for i in d2["imports"]):
            o.fails.append("extension events: calls without a handler")
    return o


C16 = Prop("C16", c16, "one case = a nodeset in which 70% of the nodes carry Extension elements with generated trees (attributes, texts, names of the nodeset grammar); the calls of the handler are compared with the events of the abstract tree, and a run without handler must give the same nodes; non-trivial: at least one extension", 5000, 110000)


# ------------------------------------------------------------------ C17
def c17(src, env):
    m = M.gen_nodeset(src, Cfg(nodes=(10, 40), files=1, shuffle=False, refs=4, reftypes=(5, 25), parents=0.7, encodings=0.2, deepreftypes=0.3, bigtext=0.0, ext=0.0, value_len=(2, 5)))
    cyc = src.chance(0.15) and add_cycle(src, m)
    f = m.files[0]
    s = src.seed()
    orders = [list(f.nodes), list(reversed(f.nodes)), src.shuffle(list(f.nodes))]
    if src.int(3) == 0:
        o2 = list(f.nodes)
        rnd = src.rngseed(); rnd.shuffle(o2)
        orders.append(o2)
    if not src.int(2):
        orders.pop(1)
    texts = [M.render(m, 0, 0, s, order=od) for od in orders]
    o = base_outcome(m, texts[:1])
    o.files = {"order%d.xml" % i: t for i, t in enumerate(texts)}
    o.key = "\0".join(texts)
    o.nontrivial = len(m.nodes) >= 3 and sum(len(n.refs) for n in m.nodes) >= 2
    if cyc:
        o.labels.append("cycle")
    ds = []
    for t in texts:
        r, d = load(env, m, [t], census=False)
        if r.crash():
            o.fails = ["crash: " + r.crash()]
            return o
        ds.append(d)
    for i, d in enumerate(ds[1:]):
        if d["imports"][0]["ok"] != ds[0]["imports"][0]["ok"] or d["sort"]["ok"] != ds[0]["sort"]["ok"]:
            o.fails.append("success depends on order: import %r sort %r / import %r sort %r, log %r %r" % (ds[0]["imports"][0]["ok"], ds[0]["sort"]["ok"], d["imports"][0]["ok"], d["sort"]["ok"], ds[0]["sort"]["log"], d["sort"]["log"]))
        elif ds[0]["sort"]["ok"]:
            o.fails += same_report(ds[0]["dump"], d["dump"], "in another order of the file")
            if sorted(map(str, ds[0]["bidi"]["refs"])) != sorted(map(str, d["bidi"]["refs"])):
                o.fails.append("encodings depend on order: %r / %r" % (ds[0]["bidi"]["refs"], d["bidi"]["refs"]))
    if not cyc and not o.fails:
        for d in ds:
            if not d["imports"][0]["ok"] or not d["sort"]["ok"]:
                o.fails.append("rejected: a valid nodeset, log %r %r" % (d["imports"][0]["log"], d["sort"]["log"]))
            else:
                idx = m.nsmap()
                o.fails += list(M.order_violations(m, d["dump"], idx))[:2]
    return o


C17 = Prop("C17", c17, "one case = one abstract nodeset (own reference types nested up to 25 deep, forward/inverse/ParentNodeId-only parents, encodings; 15% with a cycle) rendered in 2..4 node orders, all reports compared with each other; non-trivial: 3 or more nodes and 2 or more references", 4000, 90000)


# ------------------------------------------------------------------ C18
LEVELS = ["Debug", "Warning", "Error"]


def c18(src, env):
    o = Outcome()
    k = src.weighted([("plog", 3), ("fail", 4), ("default", 4)])
    o.labels.append("kind:" + k)
    if k == "plog":
        lv, kind, s, num = src.int(3), src.int(7), src.pick(["", "x", "Größe", "a" * 300, "50% done %s", "two words", "%n%d", "b" * 5000]), src.pick([0, 1, -1, 2147483647, 42])
        o.key = repr((lv, kind, s, num)); o.sample = {"level": lv, "format": kind, "text": s[:50], "number": num}; o.nontrivial = True
        r = env.run([["plog", lv, kind, s, num]])
        if r.crash():
            o.fails = ["crash: " + r.crash()]
            return o
        if "na" in r.out[0]:
            return o
        exp = r.out[0]["exp"]
        lines = r.stdout
        if exp not in lines:
            o.fails.append("default logger: printed %s for the message %s" % (M.short(lines), M.short(exp)))
        elif not lines.endswith("\n") or lines.count("\n") != 1 + exp.count("\n"):
            o.fails.append("default logger: did not print exactly one line: %s" % M.short(lines))
        elif LEVELS[lv].lower()[:4] not in lines.replace(exp, "").lower():
            o.fails.append("default logger: severity %s is missing in %s" % (LEVELS[lv], M.short(lines)))
        return o
    m = M.gen_nodeset(src, Cfg(nodes=(5, 15), files=2, refs=3, bigtext=0.0, ext=0.0, dups=0.0, weird_ids=0.5))
    kind = src.weighted([("dup", 3), ("cycle", 3), ("truncated", 3), ("unknown type", 3), ("missing", 1), ("none", 2), ("arguments", 1)])
    unk = None
    mode = ""
    if kind == "dup":
        add = [n for n in m.nodes if n.cls != "ReferenceType"]
        if add:
            M.add_duplicates(src, m, Cfg())
    elif kind == "cycle" and not add_cycle(src, m):
        kind = "none"
    elif kind == "unknown type":
        unk = src.pick(m.nodes)
        f = m.files[unk.file]
        if not f.table:
            f.table.append("urn:zz")
        if src.int(3) == 0:
            unk = M.Node("Object", (f.table[0], "s", src.pick(["100%", "%s%s%n", "a%d", "%%", "%5$s %x", "p %", "%c", "%", "Größe %u"])))
            unk.bn = (None, "u"); unk.file = src.int(len(m.files))
            f = m.files[unk.file]
            f.nodes.append(len(m.nodes)); m.nodes.append(unk)
            m.complete_tables()
        unk.refs.append((src.int(2) == 0, (unk.id[0] or f.table[0],) + src.pick([("i", 999999), ("s", "type %d%s")]), M.nid(58)))
    texts = texts_of(src, m)
    data = [t.encode() for t in texts]
    if kind == "truncated":
        data[-1] = data[-1][:src.int(_root_end(texts[-1]))]
    nd = len(M.first_completed(m)[1])
    if kind == "dup" and not nd:
        kind = "none"
    o.labels.append("failure:" + kind)
    o.nontrivial = kind != "none"
    logger = "default" if k == "default" else "cap"
    lines = [["loader", 0, logger], m.nscommand(0)]
    for i, b in enumerate(data):
        p = env.write("f%d.xml" % i, b)
        if kind == "missing" and i == len(data) - 1:
            p += ".nope"
        if kind == "arguments" and i == len(data) - 1:
            mode = src.pick(["nocb", "noctx", "nofile"])
        lines.append(["import", 0, p, 0, 0, mode])
    lines += [["sort", 0], ["delete", 0]]
    o.key = b"\0".join(data) + logger.encode() + mode.encode(); o.files = {"f%d.xml" % i: b for i, b in enumerate(data)}
    o.sample = {"failure": kind, "logger": logger}
    r = env.run(lines)
    if r.crash():
        o.fails = ["crash: " + r.crash()]
        return o
    ims = [x for x in r.out if x["cmd"] == "import"]
    so = next(x for x in r.out if x["cmd"] == "sort")
    failed = [x for x in ims + [so] if not x["ok"]]
    idx = m.nsmap()
    if logger == "cap":
        if r.stdout:
            o.fails.append("stdout: %s was printed although a logger is given" % M.short(r.stdout))
        for x in failed:
            if not errors(x["log"]):
                o.fails.append("not logged: %s returned false without an error message" % x["cmd"])
        if kind == "dup":
            n = sum(len(errors(x["log"])) for x in ims)
            if n < nd:
                o.fails.append("not logged: %d duplicate ids but %d error messages" % (nd, n))
        if kind == "unknown type" and not so["ok"]:
            msgs = " ".join(x[1] for x in errors(so["log"]))
            u, kk, v = unk.id
            if kk in "is" and str(v) not in msgs:
                o.fails.append("arguments: the message %s does not name the node %s" % (M.short(msgs), M.id_show(unk.id, idx)))
        for x in ims + [so]:
            for lv, msg in x["log"]:
                if msg is None or "(null" in msg or kind != "unknown type" and ("%s" in msg.replace("%s%n", "") or "%d" in msg or "%.*s" in msg):
                    o.fails.append("arguments: message %r" % msg)
        if kind == "none" and any(errors(x["log"]) for x in ims + [so]):
            o.fails.append("error without failure: %r" % [x["log"] for x in ims + [so]])
    else:
        n = len(failed) + (nd if kind == "dup" else 0)
        ls = r.stdout.split("\n")[:-1]
        err = [l for l in ls if "error" in l.lower()]
        if len(err) < n:
            o.fails.append("default logger: %d failures but printed %s" % (n, M.short(r.stdout)))
        if kind == "unknown type" and not so["ok"] and unk.id[1] in "is" and str(unk.id[2]) not in r.stdout:
            o.fails.append("default logger: the printed message %s does not name the node %s" % (M.short(r.stdout), M.id_show(unk.id, idx)))
        if n == 0 and err:
            o.fails.append("error without failure: printed %s" % M.short(r.stdout))
    if kind in ("truncated", "missing", "arguments") and ims[-1]["ok"]:
        o.fails.append("accepted: %s" % kind)
    if kind in ("cycle", "unknown type") and so["ok"]:
        o.fails.append("accepted: %s" % kind)
    return o


C18 = Prop("C18", c18, "one case = a message with a generated format and arguments printed by the default logger, or a history with a failure (duplicate id, cycle, truncation, unknown reference type, missing file or argument) on a loader with given or default logger; captured calls, their formatted text and standard output are compared with what must be reported; non-trivial: a failure or message is involved", 8000, 180000)


# ------------------------------------------------------------------ C19
def c19_exp(m, idx):
    e = []
    for n in m.nodes:
        if n.bn and n.bn[1] == "Default Binary":
            for fw, t, tg in n.refs:
                if t == M.nid(38) and not fw:
                    e.append([M.id_show(tg, idx), M.id_show(n.id, idx), "0;i=38"])
    return e


def c19_post(m, r, d, idx, o):
    e, g = c19_exp(m, idx), d["bidi"]["refs"]
    if e:
        o.labels.append("encodings")
        o.nontrivial = True
    if sorted(e) != sorted(g):
        mis, ext = M.diff(e, g)
        return ["encodings: missing %s, additional %s" % (M.short(mis), M.short(ext))]
    return []


def c19_many(src, env):
    """many encodings, of one or of many data types"""
    m = M.Model()
    m.huge = src.chance(0.2)
    c = src.pick(M.HUGE if m.huge else [64, 100, 255, 256, 257, 300, 511, 513, 1025, 2000])
    k = src.pick([1, 2, 10, c])
    one = src.int(3) == 2       # one node with all the references
    for i in range(k):
        n = M.Node("DataType", ("urn:a", "i", 1000 + i))
        n.bn = ("urn:a", "T")
        n.refs.append((False, M.nid(45), M.nid(22)))
        m.nodes.append(n)
    for i in range(c):
        if one and i:
            n.refs.append((False, M.nid(38), ("urn:a", "i", 1000 + i % k)))
            continue
        n = M.Node("Object", ("urn:a", "i", 500000 + i))
        n.bn = (None, "Default Binary")
        n.refs.append((False, M.nid(38), ("urn:a", "i", 1000 + i % k)))
        m.nodes.append(n)
    f = M.File(); f.table = ["urn:a"]; f.nodes = list(range(len(m.nodes)))
    if src.int(2):
        f.nodes.reverse()
    m.files = [f]
    texts = [M.render(m, 0, 0, 1)]
    o = base_outcome(m, texts)
    o.labels.append("many encodings")
    r, d = load(env, m, texts, census=False, dump="ids")
    o.fails = status(r, d, 1)
    o.nontrivial = True
    if not o.fails:
        o.fails = c19_post(m, r, d, m.nsmap(), o)
    return o


def c19(src, env):
    if src.chance(0.006):
        return c19_many(src, env)
    case = modelcheck(Cfg(nodes=(10, 60), files=3, encodings=0.7, classes=[("Object", 5), ("DataType", 4), ("Variable", 1)], values=0.0, defs=0.2, refs=2, ext=0.0, attrs=0.1, bigtext=0.0, aliases=0.6, dn=0.2, weird_ids=0.4), {"none"}, lambda m, d: bool(c19_exp(m, m.nsmap())), post=c19_post)
    return case(src, env)


C19 = Prop("C19", c19, "one case = 1..3 files with data types and encoding nodes (browse names Default Binary / Default XML / similar, namespaces, several HasEncoding references in both directions, aliases for the type; rarely up to 70000 encodings); the reported list is compared as a multiset; non-trivial: at least one entry expected", 8000, 180000)

C11L = c11
PROPS = [C02, C03, C04, C05, C06, C07, C08, C09, C10, C12, C13, C14, C15, C16, C17, C18, C19,
         Prop("C11", c11, "history with at least one import that read nodes", 6000, 120000)]


# ------------------------------------------------------------------ C01
HATTR = ["NodeId", "BrowseName", "ParentNodeId", "DataType", "ValueRank", "ArrayDimensions", "IsAbstract", "ReferenceType", "IsForward", "Alias", "Name", "Value", "IsOptional", "IsUnion", "IsOptionSet", "Locale", "EventNotifier", "AccessLevel", "xmlns", "xml:lang", "Foo"]
HVAL = ["", "i=1", "ns=1;i=1", "ns=1;i=2", "ns=1;s=a", "ns=65535;i=1", "ns=65536;i=1", "ns=-1;i=1", "1:a", ":", "1:", "-1:x", "99999999999999999999:x", "true", "false", "i=45", "i=47", "i=38", "HasSubtype", "Default Binary", "Int32", "s=", "g=", "b=", "b=A", "g=01234567-89ab-cdef-0123-456789abcde", "ns=", "ns=1", "ns=1;", "ns=1;x=1", "i=99999999999", "-1", "2147483648", "x" * 5000, "Ä", "%s%n", "i=40", "i=33", "i=32", "i=31"]
HNAMES = ["UANodeSet", "UAObject", "UAVariable", "UADataType", "UAReferenceType", "UAMethod", "UAObjectType", "UAVariableType", "UAView", "References", "Reference", "Value", "Definition", "Field", "Extensions", "Extension", "DisplayName", "Description", "InverseName", "Alias", "Aliases", "NamespaceUris", "Uri",
          "ListOfInt32", "ListOfExtensionObject", "ExtensionObject", "TypeId", "Identifier", "Body", "Int32", "ListOf", "Foo"]
KIDS = {"UANodeSet": ["NamespaceUris", "Aliases", "UAObject", "UAVariable", "UADataType", "UAReferenceType", "UAMethod", "UAView"], "NamespaceUris": ["Uri"], "Aliases": ["Alias"], "References": ["Reference"], "Definition": ["Field"], "Extensions": ["Extension"],
        "Value": ["ListOfInt32", "ListOfExtensionObject", "ExtensionObject", "Int32"], "ListOfExtensionObject": ["ExtensionObject"], "ExtensionObject": ["TypeId", "Body"], "TypeId": ["Identifier"], "ListOfInt32": ["Int32"]}
for _n in ("UAObject", "UAVariable", "UADataType", "UAReferenceType", "UAMethod", "UAObjectType", "UAVariableType", "UAView"):
    KIDS[_n] = ["References", "DisplayName", "Value", "Definition", "Extensions", "Description", "InverseName"]


def hostile_tree(src, name, d, out, esc):
    at = {}
    for _ in range(src.size(3, 6)):
        at[src.pick(HATTR)] = src.pick(HVAL)
    at.pop("xmlns", None) if src.int(4) else None
    out.append("<" + name + "".join(" %s=\"%s\"" % (k, esc(v)) for k, v in at.items()))
    n = src.size(4, 8) if d > 0 else 0
    if not n and src.int(2):
        out.append("/>")
        return
    out.append(">")
    for _ in range(n):
        k = src.int(10)
        if k < 7 and name in KIDS:
            hostile_tree(src, src.pick(KIDS[name]), d - 1, out, esc)
        elif k < 9:
            hostile_tree(src, src.pick(HNAMES), d - 1, out, esc)
        else:
            out.append(esc(src.pick(HVAL)))
    if not n or src.int(4) == 0:
        out.append(esc(src.pick(HVAL)))
    out.append("</" + name + ">")


def hostile(src):
    from xml.sax.saxutils import escape
    out = []
    k = src.int(12)
    if k == 11:
        out.append("<!DOCTYPE UANodeSet [<!ENTITY e \"value\"><!ENTITY f \"&e;&e;\"><!ELEMENT UANodeSet ANY><!ATTLIST UAObject BrowseName CDATA \"d\">]>")
    hostile_tree(src, "UANodeSet" if src.int(6) else src.pick(HNAMES), src.range(1, 6), out, lambda s: escape(s, {'"': "&quot;"}))
    t = "".join(out)
    if k == 10:
        n = src.pick(HNAMES)
        t = ("<UANodeSet><UAVariable NodeId=\"i=1\"><Value>" if src.int(2) else "<UANodeSet>") + ("<%s>" % n) * src.pick([100, 250, 300, 5000])
    if k == 9:
        t = t.replace("i=1", "&e;").replace("<!DOCTYPE", "<!DOCTYPE")
    if k == 8 and len(t) > 10:   # repeat
        t = t.replace("<Reference", "<Reference/><Reference" * src.range(1, 200))
    return t


def encode_as(src, t):
    """other encodings of the file"""
    k = src.int(12)
    if k < 8:
        return t.encode("utf-8", "surrogatepass")
    t2 = t[t.index("?>") + 2:] if t.startswith("<?xml") else t
    if k == 8:
        return ("\ufeff" + t2).encode("utf-16")
    if k == 9:
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + t2).encode("latin-1", "xmlcharrefreplace")
    if k == 10:
        return ('<?xml version="1.0" encoding="UTF-16"?>' + t2).encode("utf-8")
    return b"\xef\xbb\xbf" + t.encode("utf-8")


def c01(src, env):
    o = Outcome()
    k = src.weighted([("hostile", 6), ("restructured", 4), ("doubled", 3), ("corrupt", 4), ("truncated", 2), ("bytes", 1), ("large", 1)])
    n = src.range(1, 2)
    data = []
    for _ in range(n):
        if k == "hostile":
            b = encode_as(src, hostile(src))
        elif k == "bytes":
            r = src.rngseed()
            b = bytes(r.randrange(256) for _ in range(src.range(0, 400)))
            if src.int(2):
                b = b"<UANodeSet>" + b
        elif k == "large":
            el = src.pick(["<UAObject NodeId=\"ns=1;i=%d\" BrowseName=\"a\"/>", "<UAVariable NodeId=\"i=%d\"><Value><ListOfInt32><Int32>1</Int32></ListOfInt32></Value></UAVariable>", "<UAReferenceType NodeId=\"ns=1;i=%d\"><References><Reference ReferenceType=\"HasSubtype\" IsForward=\"false\">i=33</Reference></References></UAReferenceType>",
                           "<Alias Alias=\"a%d\">i=1</Alias>", "<UADataType NodeId=\"i=%d\"><Definition><Field Name=\"a\"/><Field Name=\"b\"/></Definition></UADataType>"])
            b = ("<UANodeSet><NamespaceUris>" + "<Uri>u</Uri>" * src.pick([0, 1, 3000]) + "</NamespaceUris>" + "".join(el % i for i in range(src.pick([10, 1000, 12000]))) + "</UANodeSet>").encode()
        else:
            m = M.gen_nodeset(src, Cfg(nodes=(6, 20), weird_ids=0.5, ext=0.2, bigtext=0.03, dups=0.2))
            t = M.render(m, 0, noise(src), src.seed())
            b = restructure(src, t).encode() if k == "restructured" else double(src, t).encode() if k == "doubled" else corrupt(src, t) if k == "corrupt" else truncate(src, t)
            if k == "restructured" and src.int(3) == 0:
                b = corrupt(src, b.decode())
        data.append(b)
    ext = src.int(2)
    lines = [["loader", 0, "default" if src.int(5) == 4 else "cap"], ["nstable", 0, src.pick([1, 65000])]]
    if src.int(10) == 9:
        lines += [["sort", 0], ["dump", 0], ["bidi", 0]] if src.int(2) else [["delete", 0], ["loader", 0, "cap"], ["dump", 0]]
        k += "+empty loader"
        if src.int(2):
            lines += [["delete", 0], ["loader", 0, "cap"]]
        else:
            data = []
    for i, b in enumerate(data):
        lines.append(["import", 0, env.write("f%d.xml" % i, b), 0, ext, src.weighted([("", 20), ("nocb", 1), ("noctx", 1), ("nofile", 1)])])
        if src.int(10) == 0:
            lines.append(["sort", 0])
    if src.int(8):
        lines += [["sort", 0]] * src.weighted([(1, 9), (2, 1)])
    lines += [["dump", 0], ["bidi", 0], ["delete", 0]]
    o.key = b"\0".join(data) + repr(lines[1:]).encode() if data else repr(lines).encode()
    o.files = {"f%d.xml" % i: b for i, b in enumerate(data)}
    o.sample = {"kind": k, "file": data[0][:600].decode("utf-8", "replace") if data else ""}
    o.labels.append("kind:" + k)
    r = env.run(lines)
    o.nontrivial = any(b.strip() for b in data) or "empty" in k
    ims = [x for x in r.out if x["cmd"] == "import"]
    if ims:
        o.labels.append("import ok" if all(x["ok"] for x in ims) else "import failed")
    if r.crash():
        o.fails = ["crash: " + r.crash()]
    return o


from .. import fuzzing
C01 = Prop("C01", c01, "libFuzzer (edge coverage, ASan+UBSan) on generated seeds with a tag-level mutator, plus generated cases: grammar-shaped hostile trees, exchanged/duplicated/cut tags, byte corruption, truncation, other encodings, large and deep inputs, calls on failed and empty loaders, executed under ASan+UBSan with a CPU limit. "
           "Non-trivial: non-empty input that is distinct by content, or (fuzzer) by coverage", 6000, 150000, special=fuzzing.Fuzz("C01", 160000, 9000000))
PROPS.append(C01)
