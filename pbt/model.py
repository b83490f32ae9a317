"""Abstract nodesets: generator, XML renderer and the reference model of what the loader has to report."""
import base64, random, uuid
from . import ns0

CLASSES = ["Object", "ObjectType", "Variable", "DataType", "Method", "ReferenceType", "VariableType", "View"]
CNUM = {c: i for i, c in enumerate(CLASSES)}
INSTANCE = {"Object", "Variable", "Method", "View"}


def _anc(i):
    r = [i]
    while i in ns0.SUPERTYPE:
        i = ns0.SUPERTYPE[i]
        r.append(i)
    return r


REFTYPES0 = [i for i, v in ns0.NODES.items() if v[0] == 32]
HIER0 = [i for i in REFTYPES0 if 33 in _anc(i)]
HAS_ENCODING = 38
# DataSetToWriter and HasAddIn are hierarchical or not depending on the version of the standard
HIER0_OK = [i for i in HIER0 if i not in (14936, 17604)]
NONHIER0_OK = [i for i in REFTYPES0 if 32 in _anc(i) and 40 not in _anc(i) and i not in (14936, 17604, 38, 32)]


def nid(i):
    return (None, "i", i)


# ---------------------------------------------------------------- node ids
def id_text(i, findex, src=None):
    """lexical form in a file whose namespace table is findex (uri -> index)"""
    uri, k, v = i
    p = "" if uri is None else "ns=%d;" % findex[uri]
    if uri is None and src is not None and src.random() < 0.1:
        p = "ns=0;"
    if k == "g":
        v = str(uuid.UUID(v))
        if src is not None and src.random() < 0.5:
            v = v.upper()
    elif k == "b":
        v = base64.b64encode(bytes.fromhex(v)).decode()
    return "%s%s=%s" % (p, k, v)


def id_show(i, idx):
    uri, k, v = i
    return "%d;%s=%s" % (0 if uri is None else idx[uri], k, v)


NULLID = "0;i=0"

# ---------------------------------------------------------------- texts
WORDS = ["Pump", "Tank", "a", "Status", "x y", "Größe", "温度", "𝒳", "&", "<b>", "\"q\"", "it's", "]]>", "&amp;", "&#65;", "%s%n", "\n", "\t", "a:b", "1:x", "Ω", " ", "--", "\\", "é", "0", "true", "{}", "\r"]
NAMES = ["Pump", "Motor", "Größe", "x", "Value", "EnumStrings", "Default Binary", "Default XML", "a b", "N:1", "3D:v", "Äö&<>\"'", "UAObject", "名", "_", "i=5", "..", "12", "Default", "Default  Binary", "default binary"]
URIS = ["urn:a", "http://example.org/UA/", "urn:b:c", "http://example.org/UA/Pumps/v1&2", "urn:ä:ö", "x", "http://example.org/UA", "urn:long:" + "n" * 300, "urn:e", "urn:f", "tag:g", "urn:h", "urn:<i>", "urn:j j"]


def gen_text(src, maxlen=60, allow_empty=True):
    n = src.weighted([(1, 6), (2, 3), (0, 1 if allow_empty else 0), (5, 2), (12, 1)])
    if n == 0 and not allow_empty:
        n = 1
    parts = []
    for _ in range(n):
        parts.append(WORDS[src.int(len(WORDS))])
    s = "".join(parts)[:maxlen] if maxlen else "".join(parts)
    if not allow_empty and not s.strip():
        s = "T" + s
    return s


def big_text(src, size):
    r = src.rngseed()
    if size > 20000:
        t = big_text(src, 5000)
        return (t * (size // 5000 + 1))[:size]
    al = "abcdefghij äöü€𝒳&<>\"']\n\t0123456789"
    return "".join(r.choice(al) for _ in range(size))


LENS = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 9000]
COUNTS = [63, 64, 65, 100, 127, 128, 129, 192, 193, 200, 255, 256, 257, 300, 511, 513, 1000, 1001, 1025]


def long_len(src, cap=10000):
    """sizes around those at which buffers and counters end"""
    return src.pick([x for x in LENS if x <= cap])


def long_count(src, cap=2000):
    return src.pick([x for x in COUNTS if x <= cap])


def long_name(src, n=None, al="abcdefghij"):
    """n bytes of a name, some with characters of more than one byte"""
    n = n or long_len(src)
    r = src.rngseed()
    t = "".join(r.choice(al) for _ in range(min(n, 97)))
    t = (t * (n // len(t) + 1))[:n]
    if n > 4 and src.int(3) == 0:
        t = "ä" + t[:n - 4] + "ß"
    return t


# ---------------------------------------------------------------- model classes
class Node:
    __slots__ = ("cls", "id", "bn", "dn", "desc", "inv", "attrs", "refs", "parent", "td", "value", "defn", "exts", "file", "dup", "xtra", "enc", "valname", "noparentref")

    def __init__(self, cls, id):
        self.cls, self.id = cls, id
        self.bn, self.dn, self.desc, self.inv = None, None, None, None
        self.attrs, self.refs, self.parent, self.td = {}, [], None, None
        self.value, self.defn, self.exts, self.file, self.dup = None, None, [], 0, False
        self.xtra = {}

    def hier(self, m):
        return [r for r in self.refs if m.is_hier(r[1])]


class File:
    def __init__(self):
        self.table = []        # uris, index 1..
        self.aliases = {}      # id -> alias name
        self.alias_order = []  # (name, id)
        self.nodes = []        # indices of model nodes in file order


class Model:
    def __init__(self):
        self.nodes, self.files, self.rtsuper = [], [], {}
        self.pretable, self.nsstart = [], 1
        self.labels = set()
        self.huge = self.hugealiases = False
        self.dtd, self.extdtd = [], []
        self.table = None      # classification by a service of the caller: id -> class

    def rtclass(self, t):
        """h, n, t (type definition), e (HasEncoding), ?"""
        if self.table is not None:
            return self.table.get(t, "?")
        seen = 0
        while t in self.rtsuper and seen < 10000:
            t = self.rtsuper[t]
            seen += 1
        if t[0] is not None or t[1] != "i":
            return "?"
        a = _anc(t[2])
        if t[2] == HAS_ENCODING:
            return "e"
        if 40 in a:
            return "t"
        if 33 in a:
            return "h"
        if 32 in a:
            return "n"
        return "?"

    def is_hier(self, t):
        return self.rtclass(t) in ("h", "e")

    def nsmap(self):
        """uri -> index by the caller's table: files are imported in order, uris in document order"""
        idx, nxt = {}, self.nsstart
        for u, i in self.pretable:
            idx[u] = i
        for f in self.files:
            for u in f.table:
                if u not in idx:
                    idx[u] = nxt
                    nxt += 1
        return idx

    def complete_tables(self):
        """adds uris that became necessary to the tables of the files"""
        for f in self.files:
            for i in f.nodes:
                for u in sorted(used_uris(self.nodes[i])):
                    if u not in f.table:
                        f.table.append(u)

    def nscommand(self, t=0):
        r = ["nstable", t, self.nsstart]
        for u, i in self.pretable:
            r += [u, i]
        return r


class Cfg:
    nodes = (8, 30)          # small, large
    files = 1
    uris = 4
    reftypes = (3, 12)
    deepreftypes = 0.1
    aliases = 0.5
    extra_aliases = (3, 40)
    refs = 3
    values = 0.6
    value_depth = 4
    value_len = (3, 20)
    defs = 0.7
    fields = (4, 30)
    ext = 0.15
    parents = 0.6
    parent_only = 0.5
    dn = 0.8
    bigtext = 0.03
    encodings = 0.15
    dups = 0.0
    shuffle = True
    classes = [("Object", 6), ("Variable", 6), ("DataType", 3), ("Method", 2), ("ObjectType", 2), ("VariableType", 2), ("View", 1)]
    attrs = 0.6
    weird_ids = 0.3
    fwd = 0.3
    noname = 0.03
    manyuris = 0.04
    hugetext = False
    huge = 0.0               # cases with more than 16 bits can count; they run without sanitizers
    big = 0.06               # cases with one dimension of an unusual size
    dtd = 0.0                # attributes that are declared with a default value
    staged = False         # files can be sorted one after the other

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)


# ---------------------------------------------------------------- generator
def gen_id(src, uris, used, cfg, k):
    while True:
        uri = src.pick(uris) if uris else None
        if cfg.weird_ids and src.chance(cfg.weird_ids):
            kind = src.pick("isgb")
        else:
            kind = "i"
        if kind == "i":
            v = 1000 + k if src.int(6) else src.pick([1, 2, 4294967295, 2147483648, 65536, 100000 + k])
            if uri is None:
                v = 50000 + k
        elif kind == "s":
            v = src.pick(["node", "a;b", "x=y", "ns=1;i=5", "Größe 1", "&<>\"'", "p.q[3]", "i=84", "L" * 200]) + (str(k) if src.int(8) else "")
            if src.int(60) == 0:
                v = long_name(src)
        elif kind == "g":
            v = uuid.UUID(int=src.rngseed().getrandbits(128)).hex
        else:
            r = src.rngseed()
            v = bytes(r.randrange(256) for _ in range(1 + r.randrange(9))).hex()
        i = (uri, kind, v)
        if i in used:
            k += 1000
            continue
        used.add(i)
        return i


BOOLS = ["true", "false", "1", "0"]
TOPEXT = [nid(85), nid(84), nid(58), nid(61), nid(22), (None, "i", 2253)]
BOTTOMEXT = [nid(86), nid(87), nid(9999901), (None, "s", "somewhere"), nid(2004)]


def gen_attrs(src, n, cfg, dts):
    a = n.attrs
    p = cfg.attrs

    def opt(name, f):
        if src.chance(p):
            a[name] = f()
    if n.cls == "Object":
        opt("EventNotifier", lambda: str(src.pick([0, 1, 4, 5, 255]) if src.int(3) else src.int(256)))
    elif n.cls in ("ObjectType", "DataType"):
        opt("IsAbstract", lambda: src.pick(BOOLS))
    elif n.cls in ("Variable", "VariableType"):
        opt("DataType", lambda: src.pick(dts))
        opt("ValueRank", lambda: str(src.pick([-1, 1, -2, -3, 0, 2, 10]) if src.int(30) else src.pick([127, 128, 255, 256, 32768, 65537])))
        opt("ArrayDimensions", lambda: src.pick(["0", "3", "2,3", "0,0,0", "4294967295", "1,2,3,4,5,6,7,8,9", "2,70000", "1,4294967295,256", "2, 3", "10, 0,  5"]) if src.int(50) else ",".join(str(i % 7) for i in range(src.pick([15, 16, 17, 33, 64, 65, 255, 256, 257, 300]))))
        if n.cls == "VariableType":
            opt("IsAbstract", lambda: src.pick(BOOLS))
        else:
            opt("AccessLevel", lambda: str((src.pick([1, 3, 0, 255, 127]) if src.int(3) else src.int(256))))
            opt("UserAccessLevel", lambda: str((src.pick([1, 3, 0, 255, 127]) if src.int(3) else src.int(256))))
            opt("Historizing", lambda: src.pick(BOOLS))
            opt("MinimumSamplingInterval", lambda: src.pick(["-1", "0", "100", "0.5", "1e3", "250.125", "1E-3", "-0.25", "16777217", "0.1", "1.7976931348623157e308", "%d.%d" % (src.int(100000), src.int(1000))]))
    elif n.cls == "Method":
        opt("Executable", lambda: src.pick(BOOLS))
        opt("UserExecutable", lambda: src.pick(BOOLS))
    elif n.cls == "ReferenceType":
        opt("Symmetric", lambda: src.pick(BOOLS))
        opt("IsAbstract", lambda: src.pick(BOOLS))
    elif n.cls == "View":
        opt("ContainsNoLoops", lambda: src.pick(BOOLS))
        opt("EventNotifier", lambda: str(src.pick([0, 1, 255])))


VNAMES = ["A", "B", "Value", "Body", "TypeId", "Identifier", "ExtensionObject", "ListOfInt32", "Int32", "String", "Text", "Locale", "Name", "Reference", "UAVariable", "Extension", "DisplayName", "LocalizedText", "References", "ListOfX", "X", "Größe"]
SCALARS = ["Int32", "String", "Boolean", "Double", "LocalizedText", "Guid", "ByteString", "QualifiedName", "Value", "UAObject", "Foo", "Identifier", "Body", "TypeId", "XmlElement", "Variant"]


def gen_prim_text(src, cfg):
    if src.chance(0.05):
        return None
    if src.chance(0.06):
        return src.pick(["  ", "\n", " \t "])
    if src.chance(cfg.bigtext):
        return big_text(src, src.range(500, 5000))
    if src.int(2) == 0:
        return str(src.range(0, 1000))
    return gen_text(src, 80)


def gen_tree(src, name, depth, cfg):
    """[name, 'p', text] or [name, 'c', members]"""
    if depth <= 0 or src.int(5) < 2:
        return [name, "p", gen_prim_text(src, cfg)]
    n = src.size(3, 6)
    if n == 0:
        return [name, "p", gen_prim_text(src, cfg)]
    same = src.chance(0.25)
    first = src.pick(VNAMES)
    return [name, "c", [gen_tree(src, first if same else (name if src.chance(0.1) else src.pick(VNAMES)), depth - 1 - src.int(2), cfg) for _ in range(n)]]


def gen_body(src, depth, cfg):
    name = src.pick(["Range", "Argument", "EUInformation", "Vec", "Body", "ExtensionObject", "TypeId", "Value", "Größe"])
    k = src.size(*cfg.value_len, p=0.05)
    deep = src.chance(0.05)
    if deep:   # a narrow deep tree
        t = [src.pick(VNAMES), "p", gen_prim_text(src, cfg)]
        for _ in range(src.range(5, 60)):
            t = [src.pick(VNAMES), "c", [t]]
        return [name, "c", [t]]
    return [name, "c", [gen_tree(src, src.pick(VNAMES), depth - 1, cfg) for _ in range(k)]]


def gen_value(src, cfg):
    kind = src.weighted([("scalar", 4), ("list", 4), ("eo", 3), ("listeo", 3)])
    n = src.size(*cfg.value_len)
    d = src.range(0, cfg.value_depth)
    if kind == "scalar":
        name = src.pick(SCALARS)
        return {"kind": kind, "tree": gen_tree(src, name, d if src.int(2) else 0, cfg)}
    if kind == "list":
        name = src.pick(SCALARS)
        deep = src.int(3) == 2
        return {"kind": kind, "tree": ["ListOf" + name, "c", [gen_tree(src, name, d if deep else 0, cfg) for _ in range(n)]], "type": name if n else None}
    tid = src.pick(["i=297", "ns=1;i=5001", "ns=2;s=Enc ä", "i=7594", "ns=1;g=01234567-89ab-cdef-0123-456789abcdef"])
    if kind == "eo":
        return {"kind": kind, "tree": gen_body(src, d, cfg), "type": tid}
    n = max(1, n)
    return {"kind": kind, "tree": ["ListOfExtensionObject", "c", [gen_body(src, d, cfg) for _ in range(n)]], "type": tid}


def gen_def(src, cfg, dts):
    kind = src.weighted([("struct", 5), ("enum", 2), ("union", 2), ("optionset", 1), ("mixed", 1)])
    n = src.size(*cfg.fields)
    d = {"kind": kind, "union": None, "os": None, "fields": []}
    if kind == "union":
        d["union"] = src.pick(["true", "1"])
    elif src.chance(0.2):
        d["union"] = src.pick(["false", "0"])
    if kind == "optionset":
        d["os"] = src.pick(["true", "1"])
    elif src.chance(0.2):
        d["os"] = src.pick(["false", "0"])
    for i in range(n):
        f = {}
        if not src.chance(0.03):
            f["Name"] = src.pick(["f", "Größe", "a b", "Value", "x&<y>", "Field"]) + (str(i) if src.int(5) else "")
        isenum = kind in ("enum", "optionset") or (kind == "mixed" and src.chance(0.3))
        if isenum:
            f["Value"] = src.pick(["%d", "%d", "%d", "%d", "%03d", "%+d", "%011d"]) % src.pick([i, 0, -1, 2147483647, -2147483648, 100 + i, 8, 10])
        if not isenum or src.chance(0.2):
            if src.chance(0.7):
                f["DataType"] = src.pick(dts)
            if src.chance(0.5):
                f["ValueRank"] = str(src.pick([-1, 1, 2, 0, -2, 5]) if src.int(20) else src.pick([127, 128, -128, -129, 255, 256, 32767, 32768, 70000, 2147483647, -2147483648]))
            if src.chance(0.4):
                f["IsOptional"] = src.pick(BOOLS)
        d["fields"].append(f)
    return d


EXTNAMES = ["Foo", "Extension", "Extensions", "UAObject", "Value", "a", "References", "Größe", "DisplayName"]


def gen_ext_tree(src, depth):
    name = src.pick(EXTNAMES)
    attrs = [(("k%d" % i) if src.int(3) else src.pick(["NodeId", "BrowseName", "Name", "Value"]) + str(i), gen_text(src, 20)) for i in range(src.size(2, 6))]
    if depth > 0 and src.int(2):
        return [name, attrs, None, [gen_ext_tree(src, depth - 1) for _ in range(src.size(3, 6))]]
    return [name, attrs, gen_text(src, 40) if src.int(4) else None, []]


def gen_nodeset(src, cfg):
    m = Model()
    nu = src.range(1, cfg.uris) if cfg.uris else 0
    if nu and src.chance(cfg.manyuris):   # indices of two and three digits
        nu = src.pick([12, 30, 120, 280])
        m.labels.add("many uris")
    uris = [URIS[(i + 0) % len(URIS)] for i in range(nu)]
    if nu > len(URIS):
        uris = ["urn:n:%d" % i for i in range(nu)]
    if nu and src.chance(cfg.big / 3):
        uris[src.int(nu)] = "urn:" + long_name(src)
        m.labels.add("big:uri")
    pool = uris + ([None] if src.chance(0.2) or not uris else [])
    used = set()
    nodes = m.nodes
    k = 0
    # reference types, supertypes first
    rts = []
    nrt = src.size(*cfg.reftypes) if uris else 0
    chain = src.chance(cfg.deepreftypes)
    for i in range(nrt):
        n = Node("ReferenceType", gen_id(src, uris, used, cfg, k)); k += 1
        if rts and (chain or src.int(2)):
            sup = rts[-1] if chain or src.int(2) else src.pick(rts)
            sup = sup.id
        else:
            sup = nid(src.pick([33, 32, 47, 35, 44, 34, 46, 39, 37, 41, 45, 49, 36, 3065, 117]))
        m.rtsuper[n.id] = sup
        n.refs.append((False, nid(45), sup))
        rts.append(n); nodes.append(n)
    hier = [nid(47), nid(35), nid(46), nid(45)] + [r.id for r in rts if m.rtclass(r.id) == "h"]
    nonh = [nid(39), nid(37), nid(41)] + [r.id for r in rts if m.rtclass(r.id) == "n"]
    hier0, nonh0 = [nid(i) for i in HIER0_OK if i != 38], [nid(i) for i in NONHIER0_OK]
    hier_all, nonh_all = hier + hier0, nonh + nonh0
    total = nrt + max(1, src.size(*cfg.nodes, p=0.12))
    while len(nodes) < total:
        n = Node(src.weighted(cfg.classes), gen_id(src, pool, used, cfg, k)); k += 1
        nodes.append(n)
    # interleave reference types anywhere in creation order
    dts0 = [nid(i) for i in (1, 6, 12, 24, 21, 22, 11, 15)]
    dts = dts0 + [n.id for n in nodes if n.cls == "DataType"]
    for i, n in enumerate(nodes):
        rt = n.cls == "ReferenceType"
        if src.chance(cfg.noname):
            n.bn = None
        else:
            n.bn = (src.pick(pool) if src.int(3) else None, src.pick(NAMES) if src.int(2) else "N%d" % i)
        if src.chance(cfg.dn):
            n.dn = (src.pick([None, "en", "de-DE", "", "zh"]), big_text(src, src.range(1000, 9000) if not cfg.hugetext else src.pick([300000, 700000, 1300000])) if src.chance(cfg.bigtext) else gen_text(src))
        if src.chance(0.3):
            n.desc = (src.pick([None, "en", "fr"]), big_text(src, src.range(1000, 9000)) if src.chance(cfg.bigtext) else gen_text(src))
        if rt and src.chance(0.6):
            n.inv = (src.pick([None, "en", "x&y"]), gen_text(src))
        gen_attrs(src, n, cfg, dts)
        # references
        if n.cls in ("Object", "Variable") and src.chance(0.7):
            n.td = src.pick([nid(58), nid(61), nid(63), nid(62)] + [x.id for x in nodes if x.cls in ("ObjectType", "VariableType")])
        earlier = nodes[:i]
        isenc = n.cls == "Object" and src.chance(cfg.encodings)
        if isenc:
            n.bn = (None, src.pick(["Default Binary", "Default XML", "Default JSON", "Default Binary", "Default binary", "Default Binary", "Default Binary ", "Compact Binary", "Default Binary2", "Default BinaryX", " Default Binary", "Binary", "Default"]))
        elif not rt:
            nr = src.int(cfg.refs + 1)
            for _ in range(nr):
                if src.int(3):
                    t = src.pick(hier_all) if src.int(3) == 0 else src.pick(hier)
                    if earlier and src.int(4):
                        e = src.pick(earlier)
                        if src.chance(cfg.fwd):
                            e.refs.append((True, t, n.id))
                        else:
                            n.refs.append((False, t, e.id))
                    else:
                        n.refs.append((False, t, src.pick(TOPEXT)) if src.int(3) else (True, t, src.pick(BOTTOMEXT)))
                else:
                    t = src.pick(nonh_all) if src.int(3) == 0 else src.pick(nonh)
                    n.refs.append((src.int(2) == 0, t, src.pick(nodes).id if src.int(3) else src.pick(TOPEXT + BOTTOMEXT)))
        else:
            if src.int(3) == 0:
                n.refs.append((src.int(2) == 0, src.pick(nonh_all), src.pick(nodes).id))
        if isenc:
            de = [e for e in earlier if e.cls == "DataType"]
            for _ in range(src.size(1, 3) or 1):
                n.refs.append((False, nid(38), src.pick(de).id if de and src.int(4) else nid(22)))
            if src.chance(0.2) and not any(r[1] == nid(38) and r[0] for r in n.refs):
                n.refs.append((True, nid(38), src.pick(BOTTOMEXT)))
        # other contents
        if n.cls == "Variable" and src.chance(cfg.values):
            n.value = gen_value(src, cfg)
        if n.cls == "VariableType" and src.chance(0.1):
            n.value = gen_value(src, cfg)
        if n.cls == "DataType" and src.chance(cfg.defs):
            n.defn = gen_def(src, cfg, dts)
        if src.chance(cfg.ext):
            n.exts = [[gen_ext_tree(src, src.range(0, 3)) for _ in range(src.size(2, 5))] for _ in range(src.size(2, 4) or 1)]
        if src.int(6) == 0 and len(n.refs) > 1:
            src.shuffle(n.refs)
    if cfg.huge and src.chance(cfg.huge):
        inflate(src, m, cfg, dts, hier, nonh, True)
    elif src.chance(cfg.big):
        inflate(src, m, cfg, dts, hier, nonh)
    # parents: after all references are known
    for i, n in enumerate(nodes):
        if n.cls not in INSTANCE or not src.chance(cfg.parents):
            continue
        if any(m.rtclass(r[1]) == "e" for r in n.refs):
            continue
        inv = [r for r in n.refs if not r[0] and m.is_hier(r[1])]
        if inv:
            n.parent = src.pick(inv)[2]
        elif src.chance(cfg.parent_only):
            earlier = nodes[:i]
            if earlier and src.int(4):
                e = src.pick(earlier)
                n.parent = e.id
                fw = set(r[1] for r in e.refs if r[2] == n.id and m.is_hier(r[1]))
                if not fw and src.chance(0.4):
                    e.refs.append((True, src.pick(hier_all), n.id))
            else:
                n.parent = src.pick(TOPEXT)
    # files
    nf = src.range(1, cfg.files)
    m.files = [File() for _ in range(nf)]
    for n in nodes:
        n.file = src.int(nf)
    if cfg.staged:     # supertypes and parents that are only given by ParentNodeId are not in a later file
        by = {n.id: n for n in nodes}
        for n in nodes:
            x = by.get(m.rtsuper.get(n.id))
            if x:
                n.file = max(n.file, x.file)
        for n in nodes:
            if n.parent in by and not any(not r[0] and m.is_hier(r[1]) for r in n.refs):
                n.file = max(n.file, by[n.parent].file)
    if src.chance(cfg.dtd):
        declare_defaults(src, m)
    finish_files(src, m, cfg, uris)
    if cfg.dups and len(nodes) and src.chance(cfg.dups):
        m.labels.add("dup")
        add_duplicates(src, m, cfg)
    return m


HUGE = [32767, 32768, 32769, 65535, 65536, 65537, 70001]


def inflate(src, m, cfg, dts, hier, nonh, huge=False):
    """one dimension of the nodeset gets an unusual size"""
    def long_count(src, cap=2000):
        return src.pick(HUGE if huge else [x for x in COUNTS if x <= cap])
    nodes = m.nodes
    plain = [n for n in nodes if n.cls != "ReferenceType" and not (n.bn and n.bn[0] is None and n.cls == "Object")]
    var = [n for n in nodes if n.cls == "Variable"]
    dty = [n for n in nodes if n.cls == "DataType"]
    kinds = ["name", "locale", "refs"]
    if cfg.values and var:
        kinds += ["value", "value", "eo", "memname"]
    if cfg.defs and dty:
        kinds += ["fields", "fieldname"]
    if cfg.ext and plain:
        kinds += ["extdeep", "extattrs", "extmany", "exttext"]
    if huge:
        kinds = [x for x in ("refs", "value", "eo", "fields", "extmany") if x in kinds] + ["aliases"]
        m.huge = True
        m.labels.add("huge")
    k = src.pick(kinds)
    if not plain:
        return
    n = src.pick(plain)
    m.labels.add("big:" + k)
    if k == "name":
        n.bn = (n.bn[0] if n.bn else None, long_name(src))
    elif k == "aliases":
        m.hugealiases = True
    elif k == "locale":
        n.dn = (long_name(src), "text")
        if src.int(2):
            n.desc = (long_name(src), long_name(src))
    elif k == "refs":
        for i in range(long_count(src, 600 if cfg.refs < 6 else 1100)):
            if src.int(2):
                n.refs.append((True, hier[i % len(hier)], nid(9500000 + i)))
            else:
                n.refs.append((i % 3 > 0, nonh[i % len(nonh)], nid(9500000 + i)))
    elif k == "value":
        n = src.pick(var)
        c = long_count(src)
        if src.int(2):
            nm = src.pick(SCALARS)
            n.value = {"kind": "list", "tree": ["ListOf" + nm, "c", [[nm, "p", str(i)] for i in range(c)]], "type": nm}
        else:
            c = c if huge else min(c, 300)
            n.value = {"kind": "listeo", "tree": ["ListOfExtensionObject", "c", [["Vec", "c", [["X", "p", str(i)]]] for i in range(c)]], "type": "i=297"}
    elif k == "eo":
        n = src.pick(var)
        c = long_count(src)
        t = [["M%d" % i if src.int(4) else "M", "p", str(i)] for i in range(c)]
        if src.int(2):       # members of a member
            t = [["A", "p", "1"], ["Inner", "c", t], ["B", "p", "2"]]
        n.value = {"kind": "eo", "tree": ["Vec", "c", t], "type": "i=297"}
    elif k == "memname":
        n = src.pick(var)
        a = long_name(src)
        n.value = {"kind": "eo", "tree": ["Vec" if src.int(2) else long_name(src), "c", [[a, "p", "1"], [a + "x", "c", [[a, "p", long_name(src)]]]]], "type": src.pick(["i=297", "ns=1;s=" + long_name(src)])}
    elif k == "fields":
        n = src.pick(dty)
        kind = src.pick(["struct", "enum", "union"])
        n.defn = {"kind": kind, "union": "true" if kind == "union" else None, "os": None, "fields": []}
        for i in range(long_count(src)):
            f = {"Name": "f%d" % i}
            if kind == "enum":
                f["Value"] = str(i)
            else:
                f["DataType"] = dts[i % len(dts)]
            n.defn["fields"].append(f)
    elif k == "fieldname":
        n = src.pick(dty)
        n.defn = {"kind": "struct", "union": None, "os": None, "fields": [{"Name": long_name(src), "DataType": src.pick(dts), "ValueRank": "1"} for i in range(src.range(1, 3))]}
    elif k == "extdeep":
        t = ["X", [], "text", []]
        for i in range(src.pick([20, 63, 64, 65, 127, 128, 129, 200, 240])):
            t = [src.pick(EXTNAMES), [("d", str(i))], None, [t]]
        n.exts = [[t]]
    elif k == "extattrs":
        n.exts = [[["X", [("a%d" % i, str(i)) for i in range(src.pick([9, 10, 11, 16, 17, 33, 64, 65, 128, 129, 256, 257, 300]))], "t", []]]]
    elif k == "extmany":
        n.exts = [[["X", [], str(i), []]] for i in range(long_count(src, 300))]
    elif k == "exttext":
        n.exts = [[[long_name(src), [(long_name(src), long_name(src)), ("b", big_text(src, long_len(src)))], big_text(src, long_len(src)), []]]]


DTDCHOICES = {"Object": [("EventNotifier", ["1", "5"])], "Variable": [("ValueRank", ["1", "-3"]), ("AccessLevel", ["3", "0"]), ("UserAccessLevel", ["3"]), ("Historizing", ["true"]), ("MinimumSamplingInterval", ["250"])],
              "VariableType": [("IsAbstract", ["true"]), ("ValueRank", ["-2"])], "ObjectType": [("IsAbstract", ["true", "1"])], "DataType": [("IsAbstract", ["true"])],
              "Method": [("Executable", ["false"]), ("UserExecutable", ["0"])], "ReferenceType": [("Symmetric", ["true"])], "View": [("EventNotifier", ["1"]), ("ContainsNoLoops", ["1"])]}


def declare_defaults(src, m):
    """the document type declares default values of attributes: an element without the attribute has it nevertheless"""
    m.dtd = []
    for _ in range(src.range(1, 4)):
        c = src.pick(sorted({n.cls for n in m.nodes}))
        a, vs = src.pick(DTDCHOICES[c])
        if any(x[0] == c and x[1] == a for x in m.dtd):
            continue
        v = src.pick(vs)
        m.dtd.append((c, a, v))
        for n in m.nodes:
            if n.cls == c and a not in n.attrs:
                n.attrs[a] = v
                n.xtra.setdefault("declared", set()).add(a)
    m.labels.add("declared defaults")


def used_uris(n):
    u = {n.id[0]}
    if n.bn:
        u.add(n.bn[0])
    if n.parent:
        u.add(n.parent[0])
    if n.td:
        u.add(n.td[0])
        if "tdtype" in n.xtra:
            u.add(n.xtra["tdtype"][0])
    for r in n.refs:
        u.add(r[1][0]); u.add(r[2][0])
    dt = n.attrs.get("DataType")
    if dt:
        u.add(dt[0])
    if n.defn:
        for f in n.defn["fields"]:
            if "DataType" in f:
                u.add(f["DataType"][0])
    u |= n.xtra.get("uris", set())
    u.discard(None)
    return u


def finish_files(src, m, cfg, uris):
    for fi, f in enumerate(m.files):
        own = [i for i, n in enumerate(m.nodes) if n.file == fi]
        if cfg.shuffle:
            o = src.order(len(own))
            own = [own[i] for i in o]
        f.nodes = own
        need = set()
        for i in own:
            need |= used_uris(m.nodes[i])
        p = 0.95 if "many uris" in m.labels else 0.3
        for u in uris:
            if src.chance(p):
                need.add(u)
        f.table = sorted(need)
        src.shuffle(f.table)
        if f.table and src.chance(0.05):
            f.table.append(f.table[0])
        # aliases
        if src.chance(cfg.aliases):
            ids = set()
            for i in own:
                n = m.nodes[i]
                for r in n.refs:
                    ids.add(r[1]); ids.add(r[2])
                if n.td:
                    ids.add(n.td); ids.add(nid(40))
                if n.attrs.get("DataType"):
                    ids.add(n.attrs["DataType"])
                if n.defn:
                    for fd in n.defn["fields"]:
                        if "DataType" in fd:
                            ids.add(fd["DataType"])
            if m.huge:
                ids = set(x for x in ids if not (x[1] == "i" and x[2] >= 9500000))
            ids = sorted(ids, key=str)
            names = ["HasComponent", "A", "AA", "Ä", "alias with space", "Int32", "x" * 100, "ns", "I=5", "HasSubType", "&<>\"'", "AliasA", "A:1"]
            k = 0
            for i in ids:
                if src.chance(0.7):
                    nm = names[k] if k < len(names) and src.int(2) else "Alias%d" % k
                    k += 1
                    if src.int(150) == 0:
                        nm = long_name(src)
                    elif src.int(40) == 0 and f.aliases:
                        nm = src.pick(sorted(f.aliases.values()))
                        nm = src.pick([nm.lower(), nm.upper(), nm + "x", nm[:-1].strip() or "q", nm + nm, "_" + nm])
                        if nm in [x for x, _ in f.alias_order] or nm.lower().startswith(("i=", "s=", "g=", "b=", "ns=")):
                            nm += "_"
                    if nm in f.aliases.values():
                        nm += "_%d" % k
                    f.aliases[i] = nm
                    f.alias_order.append((nm, i))
            have = set(f.aliases.values())
            tgt = TOPEXT + [nid(47), nid(12), nid(900000)]
            pref = src.pick(["E", "Alias", "X" * 60, "Ü"]) if src.int(12) else long_name(src, long_len(src, 1100))
            for j in range(src.pick(HUGE) if m.hugealiases else src.size(*cfg.extra_aliases)):
                nm = "%s%d" % (pref, j) if m.hugealiases or src.int(4) else "%s%s" % (pref, "0" * j)
                if nm not in have:
                    have.add(nm)
                    f.alias_order.append((nm, tgt[j % len(tgt)] if m.hugealiases else src.pick(TOPEXT + [nid(47), nid(12), nid(900000 + j)])))
            src.rngseed().shuffle(f.alias_order) if m.hugealiases else src.shuffle(f.alias_order)
    if src.chance(0.5):
        m.nsstart = src.pick([1, 2, 5, 1000, 40000, 65000])
    if src.chance(0.4):
        base = m.nsstart + 300
        for u in URIS:
            if src.chance(0.3):
                m.pretable.append((u, base)); base += 1


def add_duplicates(src, m, cfg):
    """copies of ids with other contents; file order decides which one is completed first"""
    for _ in range(src.range(1, 3)):
        o = src.pick(m.nodes)
        if o.cls == "ReferenceType":
            continue
        d = Node(src.pick(["Object", "Variable", "Method", "DataType"]) if src.int(2) else o.cls, o.id)
        if d.cls == "ReferenceType":
            continue
        d.bn = (None, "Duplicate")
        d.dup = True
        # only references that cannot change the order of other nodes
        if src.int(2):
            d.refs.append((src.int(2) == 0, nid(39), nid(58)))
        if d.cls == "Variable" and src.int(2):
            d.value = gen_value(src, cfg)
        if d.cls == "DataType":
            d.defn = gen_def(src, cfg, [nid(12)])
        # refs of duplicates must not use namespaces missing in the file
        f = src.pick([x for x in m.files if d.id[0] is None or d.id[0] in x.table])
        d.file = m.files.index(f)
        at = src.int(len(f.nodes) + 1)
        oi = m.nodes.index(o)
        if src.int(2) and oi in [i for g in m.files[:d.file] for i in g.nodes] + f.nodes[:at]:
            # never the one which is reported: its references would close a cycle
            # or need an unknown type, if they counted
            here = set(f.table) | {None}
            kids = [c.id for c in m.nodes if c.id != o.id and c.id[0] in here and (c.parent == o.id or any(not r[0] and r[2] == o.id and m.is_hier(r[1]) for r in c.refs))]
            pars = [r[2] for r in o.refs if not r[0] and m.is_hier(r[1]) and r[2][0] in here]
            for k in kids[:2]:
                d.refs.insert(src.int(len(d.refs) + 1), (False, nid(src.pick([35, 47, 46])), k))
            for k in pars[:2]:
                d.refs.insert(src.int(len(d.refs) + 1), (True, nid(src.pick([35, 47, 46])), k))
            if src.int(3) == 0:
                d.refs.insert(src.int(len(d.refs) + 1), (src.int(2) == 0, (src.pick(list(f.table)), "i", 987654) if f.table else (None, "i", 999999), nid(58)))
            m.labels.add("duplicate with references")
        m.nodes.append(d)
        f.nodes.insert(at, len(m.nodes) - 1)


def first_completed(m):
    """nodes that must be reported: by import order, first occurrence of an id wins"""
    seen, out, dups = set(), [], []
    for f in m.files:
        for i in f.nodes:
            n = m.nodes[i]
            if n.id in seen:
                dups.append(n)
            else:
                seen.add(n.id)
                out.append(n)
    return out, dups


# ---------------------------------------------------------------- XML
UA_ELEMENTS = ["UAObject", "UAVariable", "UAMethod", "UADataType", "UAReferenceType", "UAObjectType", "UAVariableType", "UAView"]
FILE_ELEMENTS = ["UANodeSet", "Aliases", "Alias", "NamespaceUris", "Uri", "Models", "ServerUris"]
JUNK_AT = {
    "top": ["Reference", "References", "DisplayName", "Description", "InverseName", "Field", "Definition", "Value", "Uri", "Extension", "Models", "ServerUris"],
    "node": UA_ELEMENTS + FILE_ELEMENTS + ["Field", "Reference", "Extension"],
    "references": UA_ELEMENTS + FILE_ELEMENTS + ["References", "DisplayName", "Description", "InverseName", "Value", "Field", "Definition", "Extension", "Extensions"],
    "definition": UA_ELEMENTS + FILE_ELEMENTS + ["Reference", "References", "DisplayName", "Description", "InverseName", "Value", "Definition", "Extension", "Extensions"],
    "extensions": UA_ELEMENTS + FILE_ELEMENTS + ["Reference", "References", "DisplayName", "Description", "InverseName", "Value", "Definition", "Field", "Extensions"],
    "uris": UA_ELEMENTS + ["UANodeSet", "Aliases", "Alias", "NamespaceUris", "Reference", "References", "DisplayName", "Value", "Definition", "Extension", "Extensions"],
}


class Xml:
    """noise 0: plain; 1: layout; 2: + encodings of characters, comments, PIs; 3: + unknown attributes and elements, prefixes"""

    def __init__(self, noise=0, seed=0, textnoise=None):
        self.n, self.r, self.o = noise, random.Random(seed), []
        self.tn = noise if textnoise is None else textnoise
        self.depth = 0
        self.prefix = ""
        if noise >= 3 and self.r.random() < 0.5:
            self.prefix = self.r.choice(["ua:", "n:", "opc-ua:"])

    def esc_attr(self, v, q='"'):
        o = []
        for ch in v:
            if ch in "<&" or ch == q or ch in "\t\n\r":
                o.append(self.charref(ch))
            elif self.tn >= 2 and self.r.random() < 0.08:
                o.append(self.charref(ch))
            else:
                o.append(ch)
        return "".join(o)

    def charref(self, ch):
        ent = {"<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}
        if ch in ent and (self.tn < 2 or self.r.random() < 0.6):
            return ent[ch]
        return ("&#%d;" % ord(ch)) if self.r.random() < 0.5 else "&#x%x;" % ord(ch)

    def esc_text(self, t):
        o = []
        for i, ch in enumerate(t):
            if ch in "<&\r" or (ch == ">" and t[max(0, i - 2):i] == "]]"):
                o.append(self.charref(ch))
            elif self.tn >= 2 and self.r.random() < 0.05:
                o.append(self.charref(ch))
            else:
                o.append(ch)
        return "".join(o)

    def text(self, t):
        if self.tn < 2 or not t:
            return self.esc_text(t)
        o = []
        i = 0
        while i < len(t):
            k = 1 + min(self.r.randrange(40), self.r.randrange(40))
            if self.r.random() < 0.3:
                k = len(t)
            p = t[i:i + k]
            i += k
            x = self.r.random()
            if x < 0.25 and "]]>" not in p and "\r" not in p:
                o.append("<![CDATA[" + p + "]]>")
            else:
                o.append(self.esc_text(p))
                if p.endswith("]") or p.endswith("]]"):
                    o.append("<!---->")
            if self.r.random() < 0.2:
                o.append(self.comment())
        if self.r.random() < 0.1:
            o.insert(0, self.comment())
        return "".join(o)

    def comment(self):
        x = self.r.random()
        if x < 0.7:
            return "<!--" + self.r.choice(["", " c ", "<UAObject NodeId=\"i=1\">", "&amp; &undefined;", " ä " * self.r.randrange(1, 30), "]]>"]) + "-->"
        return "<?" + self.r.choice(["pi", "x-y", "UAObject"]) + self.r.choice(["", " a=\"b\"", " <Value>"]) + "?>"

    def ws(self):
        if self.n == 0:
            self.o.append("\n")
            return
        self.o.append(self.r.choice(["", "\n", "  ", "\n\t", "\r\n  ", "\n" * 3]))
        if self.n >= 2 and self.r.random() < 0.06:
            self.o.append(self.comment())
            self.o.append(self.r.choice(["", "\n"]))

    def junk(self, p=0.12, at=""):
        """an element the loader does not know at this place, with an arbitrary subtree; at: top, node, in a References, ..."""
        if self.n < 3 or self.r.random() >= p:
            return
        self.ws()
        if self.r.random() < 0.006:
            k = self.r.choice([60, 127, 128, 129, 200, 240])
            nm = self.r.choice(["Foo", "UAVariable", "Value", "References", "Extension", "x:y"])
            self.o.append("<Foo>" + "<%s>" % nm * k + "deep" + "</%s>" % nm * k + "</Foo>")
            return
        if self.r.random() < 0.006:
            k = self.r.choice([10, 11, 33, 65, 129, 257])
            self.o.append("<Foo%s>%s</Foo>" % ("".join(' a%d="%d"' % (i, i) for i in range(k)), "<Bar/>" * k))
            return
        names = ["Foo", "Documentation", "Category", "RolePermissions", "x:Foo", "Größe", "Displayname", "UAObjekt", "Referenc", "Valu", "UANodeSe",
                 "ExtensionX", "Extensionss", "Aliases2", "UAObjectX", "UAVariables", "UANodeSetX", "NamespaceUrisX", "DisplayNames", "ReferencesX", "Values", "Definitions", "Fields", "Uris", "InverseNames", "Descriptions"]
        if at and self.r.random() < 0.4:
            names = JUNK_AT[at]     # known names at a place where they mean nothing
        self.o.append(self.junk_tree(self.r.choice(names), 3))

    def junk_tree(self, name, d):
        r = self.r
        inner = ["UAObject", "UAVariable", "Value", "Reference", "References", "DisplayName", "Alias", "Uri", "NamespaceUris", "Extension", "Extensions", "Definition", "Field", "UANodeSet", "Foo", "x:y", "Description", "InverseName", "UAReferenceType", name]
        at = "".join(" %s=\"%s\"" % (k, self.esc_attr(v)) for k, v in r.sample([("NodeId", "ns=1;i=77"), ("BrowseName", "junk"), ("Alias", "HasComponent"), ("x:a", "b"), ("Name", "n"), ("Locale", "zz"), ("ReferenceType", "i=47")], r.randrange(0, 4)))
        kids = "".join(self.junk_tree(r.choice(inner), d - 1) + (r.choice(["", "\n", "text", "<!-- c -->"])) for _ in range(r.randrange(0, 4))) if d > 0 else r.choice(["", "text &amp; more", "i=47"])
        if not kids and r.random() < 0.5:
            return "<%s%s/>" % (name, at)
        return "<%s%s>%s</%s>" % (name, at, kids, name)

    def attrs(self, attrs, noise=True):
        attrs = list(attrs)
        if self.n >= 3 and noise and self.r.random() < 0.35:
            for k, v in self.r.sample([("SymbolicName", "Sym"), ("x:NodeId", "ns=9;i=9"), ("x:BrowseName", "9:Wrong"), ("WriteMask", "0"), ("x:IsForward", "false"), ("x:ReferenceType", "i=1"), ("nodeid", "i=2"), ("xml:lang", "en"), ("x:Locale", "qq"), ("x:Alias", "Zz"), ("Unknown", "<&\">"), ("NodeId2", "i=3"), ("Node", "i=4"), ("x:DataType", "i=7"), ("x:Value", "77"), ("x:Name", "wrong"), ("x:ValueRank", "7"), ("ReleaseStatus", "Draft"), ("DataTypeX", "i=5")], self.r.randrange(1, 4)):
                attrs.insert(self.r.randrange(len(attrs) + 1), (k, v))
        if self.n >= 1:
            self.r.shuffle(attrs)
        o = []
        for k, v in attrs:
            q = "'" if self.n >= 1 and self.r.random() < 0.3 else '"'
            sp = self.r.choice([" ", "\n  ", "  "]) if self.n >= 1 else " "
            eq = self.r.choice(["=", " = ", "= "]) if self.n >= 1 and self.r.random() < 0.2 else "="
            o.append("%s%s%s%s%s%s" % (sp, k, eq, q, self.esc_attr(v, q), q))
        return "".join(o) + (" " if self.n and self.r.random() < 0.1 else "")

    def open(self, name, attrs=(), noise=True, pre=True):
        self.o.append("<%s%s%s>" % (self.prefix if pre else "", name, self.attrs(attrs, noise)))

    def close(self, name, pre=True):
        self.o.append("</%s%s%s>" % (self.prefix if pre else "", name, " " if self.n and self.r.random() < 0.1 else ""))

    def leaf(self, name, attrs, text, noise=True, pre=True):
        self.ws()
        p = self.prefix if pre else ""
        if not text and (text is None or self.r.random() < 0.5):
            if self.n and self.r.random() < 0.5:
                self.o.append("<%s%s%s></%s%s>" % (p, name, self.attrs(attrs, noise), p, name))
            else:
                self.o.append("<%s%s%s/>" % (p, name, self.attrs(attrs, noise)))
            return
        self.o.append("<%s%s%s>%s</%s%s>" % (p, name, self.attrs(attrs, noise), self.text(text), p, name))


def render_value_tree(x, t):
    name, k, v = t
    if k == "p":
        x.leaf(name, [], v(x.findex, x.r) if callable(v) else v, noise=False)
        return
    x.ws()
    x.open(name, [], noise=False)
    for c in v:
        render_value_tree(x, c)
    x.ws()
    x.close(name)


def render_value(x, v):
    x.ws(); x.open("Value", [])
    if v["kind"] in ("scalar", "list"):
        render_value_tree(x, v["tree"])
    else:
        bodies = [v["tree"]] if v["kind"] == "eo" else v["tree"][2]
        if v["kind"] == "listeo":
            x.ws(); x.open("ListOfExtensionObject", [], noise=False)
        for b in bodies:
            x.ws(); x.open("ExtensionObject", [], noise=False)
            x.ws(); x.open("TypeId", [], noise=False)
            x.leaf("Identifier", [], v["type"], noise=False)
            x.ws(); x.close("TypeId")
            x.ws(); x.open("Body", [], noise=False)
            render_value_tree(x, b) if b[2] else x.leaf(b[0], [], None, noise=False)
            x.ws(); x.close("Body")
            x.ws(); x.close("ExtensionObject")
        if v["kind"] == "listeo":
            x.ws(); x.close("ListOfExtensionObject")
    x.ws(); x.close("Value")


def render_ext(x, t):
    name, attrs, text, kids = t
    if not kids:
        x.leaf(name, attrs, text, noise=False, pre=False)
        return
    x.ws(); x.open(name, attrs, noise=False, pre=False)
    for c in kids:
        render_ext(x, c)
    x.ws(); x.close(name, pre=False)


def render_node(x, m, f, n, findex):
    r = x.r

    def idt(i, alias=False):
        if alias and i in f.aliases and r.random() < 0.8:
            return f.aliases[i]
        return id_text(i, findex, r if x.n else None)
    at = [("NodeId", idt(n.id))]
    if n.bn is not None:
        u, nm = n.bn
        if u is None:
            digits = len(nm) - len(nm.lstrip("0123456789"))
            nm = ("0:" if (digits and nm[digits:digits + 1] == ":") or (x.n and r.random() < 0.2) else "") + nm
        else:
            nm = "%d:%s" % (findex[u], nm)
        at.append(("BrowseName", nm))
    if n.parent is not None:
        at.append(("ParentNodeId", idt(n.parent)))
    for k, v in n.attrs.items():
        if k in n.xtra.get("declared", ()):
            continue
        at.append((k, idt(v, True) if k == "DataType" else v))
    x.ws(); x.open("UA" + n.cls, at)
    parts = []
    if n.dn:
        parts.append(lambda: x.leaf("DisplayName", [("Locale", n.dn[0])] if n.dn[0] is not None else [], n.dn[1]))
    if n.desc:
        parts.append(lambda: x.leaf("Description", [("Locale", n.desc[0])] if n.desc[0] is not None else [], n.desc[1]))

    def refs():
        all_ = [(True, n.xtra.get("tdtype", nid(40)), n.td, True)] if n.td else []
        l = [r_ + (False,) for r_ in n.refs]
        if all_:
            k = r.randrange(len(l) + 1)
            l = l[:k] + all_ + l[k:]
        x.ws(); x.open("References", [])
        for fw, t, tg, _ in l:
            x.junk(0.04, "references")
            a = [("ReferenceType", idt(t, True))]
            if not fw:
                a.append(("IsForward", r.choice(["false", "0"]) if x.n else "false"))
            elif x.n and r.random() < 0.3:
                a.append(("IsForward", r.choice(["true", "1"])))
            x.leaf("Reference", a, idt(tg, True))
        x.junk(0.04, "references")
        x.ws(); x.close("References")
    if n.refs or n.td or r.random() < 0.2:
        parts.append(refs)
    if n.inv:
        parts.append(lambda: x.leaf("InverseName", [("Locale", n.inv[0])] if n.inv[0] is not None else [], n.inv[1]))
    if n.value:
        parts.append(lambda: render_value(x, n.value))
    if n.defn:
        def dfn():
            d = n.defn
            a = [("Name", "D")]
            if d["union"] is not None:
                a.append(("IsUnion", d["union"]))
            if d["os"] is not None:
                a.append(("IsOptionSet", d["os"]))
            x.ws(); x.open("Definition", a)
            for fd in d["fields"]:
                x.junk(0.04, "definition")
                fa = [(k, idt(v, True) if k == "DataType" else v) for k, v in fd.items()]
                if x.n >= 3 and r.random() < 0.2:
                    x.ws(); x.open("Field", fa)
                    x.leaf("DisplayName", [], "field name")
                    x.leaf("Description", [("Locale", "en")], "text of a field")
                    x.ws(); x.close("Field")
                else:
                    x.leaf("Field", fa, None)
            x.ws(); x.close("Definition")
        parts.append(dfn)
    if n.exts:
        def exts():
            x.ws(); x.open("Extensions", [])
            for e in n.exts:
                x.junk(0.1, "extensions")
                x.ws(); x.open("Extension", [])
                for t in e:
                    render_ext(x, t)
                x.ws(); x.close("Extension")
            x.junk(0.1, "extensions")
            x.ws(); x.close("Extensions")
        parts.append(exts)
    elif x.n >= 3 and r.random() < 0.05:
        def noexts():
            x.ws(); x.open("Extensions", [])
            x.junk(0.8, "extensions")
            x.ws(); x.close("Extensions")
        parts.append(noexts)
    if x.n >= 2 and r.random() < 0.3:
        r.shuffle(parts)
    for p in parts:
        x.junk(at="node")
        p()
    x.junk(at="node")
    x.ws(); x.close("UA" + n.cls)


def render(m, fi=0, noise=0, seed=0, order=None, textnoise=None):
    """text of file fi (str)"""
    f = m.files[fi]
    x = Xml(noise, seed, textnoise)
    findex = {}
    for i, u in enumerate(f.table):
        if u not in findex or (noise and x.r.random() < 0.5):
            findex[u] = i + 1
    x.findex = findex
    if noise == 0 or x.r.random() < 0.6:
        x.o.append('<?xml version="1.0" encoding="utf-8"?>')
        x.ws()
    if x.n >= 2 and x.r.random() < 0.2:
        x.o.append("<!-- %s -->" % ("c" * x.r.randrange(0, 1500)))
    if m.dtd or m.extdtd:
        x.o.append("<!DOCTYPE %sUANodeSet [%s%s]>\n" % (x.prefix, "".join("<!ATTLIST %sUA%s %s CDATA \"%s\">\n" % (x.prefix, c, a, v) for c, a, v in m.dtd), "".join("<!ATTLIST %s %s CDATA \"%s\">\n" % (e, a, x.esc_attr(v)) for e, a, v in m.extdtd)))
    ns = "http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"
    ra = [("xmlns:x", "urn:x")]
    if x.prefix:
        ra.append(("xmlns:" + x.prefix[:-1], ns))
    elif x.n == 0 or x.r.random() < 0.8:
        ra.append(("xmlns", ns))
    if x.r.random() < 0.3:
        ra.append(("LastModified", "2020-01-01T00:00:00Z"))
    x.open("UANodeSet", ra)
    x.junk(at="top")
    if f.table or x.r.random() < 0.3:
        x.ws(); x.open("NamespaceUris", [])
        for u in f.table:
            x.junk(0.04, "uris")
            x.leaf("Uri", [], u)
        x.junk(0.04, "uris")
        x.ws(); x.close("NamespaceUris")
    x.junk(at="top")
    if f.alias_order or x.r.random() < 0.2:
        x.ws(); x.open("Aliases", [])
        for nm, i in f.alias_order:
            x.junk(0.02)
            x.leaf("Alias", [("Alias", nm)], id_text(i, findex, x.r if x.n else None))
        x.ws(); x.close("Aliases")
    for i in (order or f.nodes):
        x.junk(0.08, "top")
        render_node(x, m, f, m.nodes[i], findex)
    x.junk(at="top")
    x.ws(); x.close("UANodeSet")
    if x.n >= 1 and x.r.random() < 0.3:
        x.o.append("\n")
    if x.n >= 2 and x.r.random() < 0.2:
        x.o.append(x.comment())
    return "".join(x.o)


def alias_uris_ok(m):
    """alias targets need their namespace in the file's table"""
    for f in m.files:
        for nm, i in f.alias_order:
            if i[0] is not None and i[0] not in f.table:
                return False
    return True


# ---------------------------------------------------------------- expectation
DEFAULTS = {"EventNotifier": "0", "ValueRank": "-1", "ArrayDimensions": "", "IsAbstract": "false", "AccessLevel": "1", "UserAccessLevel": "1", "Historizing": "false",
            "MinimumSamplingInterval": "-1", "Executable": "true", "UserExecutable": "true", "Symmetric": "false", "ContainsNoLoops": "false"}
CLASS_ATTRS = {"Object": ["EventNotifier"], "ObjectType": ["IsAbstract"], "DataType": ["IsAbstract"], "Variable": ["ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "Historizing", "MinimumSamplingInterval"],
               "VariableType": ["ValueRank", "ArrayDimensions", "IsAbstract"], "Method": ["Executable", "UserExecutable"], "ReferenceType": ["Symmetric", "IsAbstract"], "View": ["ContainsNoLoops", "EventNotifier"]}
BOOLATTRS = {"IsAbstract", "Historizing", "Executable", "UserExecutable", "Symmetric", "ContainsNoLoops"}


def nt(s):
    """empty text is reported as NULL or as empty string"""
    return s or None


def primtext(s):
    if s is None or not s.strip(" \t\r\n"):
        return None
    return s


def exp_tree(t):
    name, k, v = t
    if k == "p":
        return [name, "p", primtext(v)]
    return [name, "c", [exp_tree(c) for c in v]]


def canon_value(v):
    """an element without text and members may be reported as primitive without text or complex without members"""
    if v is None:
        return None
    return v


def exp_value(v):
    t = exp_tree(v["tree"])
    k = v["kind"]
    if k == "scalar":
        return {"arr": False, "eo": False, "type": v["tree"][0], "data": t}
    if k == "list":
        return {"arr": True, "eo": False, "type": v["type"], "data": t}
    if k == "eo":
        return {"arr": False, "eo": True, "type": v["type"], "data": t}
    return {"arr": True, "eo": True, "type": v["type"], "data": t}


def boolof(s):
    return s in ("true", "1")


def exp_refs(m, n, idx):
    """(list of hierarchical, list of non-hierarchical, either) as multisets of (fwd,type,target)"""
    h, nh, e = [], [], []
    for fw, t, tg in n.refs:
        c = m.rtclass(t)
        x = (fw, id_show(t, idx), id_show(tg, idx))
        (h if c == "h" else e if c == "e" else nh).append(x)
    return h, nh, e


def parent_ref(m, n, byid, idx):
    """None or set of acceptable added references"""
    if n.cls not in INSTANCE or n.parent is None:
        return None
    if any(not r[0] and m.is_hier(r[1]) for r in n.refs):
        return None
    ts = set()
    p = byid.get(n.parent)
    if p:
        ts = {r[1] for r in p.refs if r[2] == n.id and m.is_hier(r[1]) and r[0]}
    if not ts:
        ts = {nid(47)}
    return {(False, id_show(t, idx), id_show(n.parent, idx)) for t in ts}


def compare(m, dump, idx=None, exts=False):
    """yields (category, message)"""
    idx = idx or m.nsmap()
    exp, dups = first_completed(m)
    byid = {n.id: n for n in exp}
    got = {}
    for d in dump["nodes"]:
        got.setdefault(d["id"], []).append(d)
    for k in range(8):
        if dump["cnt"][k] != dump["em"][k]:
            yield "nodes", "count: forEachNode(%s) returned %d but reported %d nodes" % (CLASSES[k], dump["cnt"][k], dump["em"][k])
    expids = {}
    for n in exp:
        expids[id_show(n.id, idx)] = n
    for i in got:
        if i not in expids:
            yield "nodes", "extra node: %s is reported but not in the file" % i
    for i, n in expids.items():
        g = got.get(i)
        if not g:
            yield "nodes", "missing node: %s %s is not reported" % (n.cls, i)
            continue
        if len(g) > 1:
            yield "nodes", "repeated node: %s %s is reported %d times" % (n.cls, i, len(g))
        d = g[0]
        if d["c"] != CNUM[n.cls]:
            yield "nodes", "class: %s is reported as %s instead of %s" % (i, CLASSES[d["c"]], n.cls)
            continue
        yield from compare_node(m, n, d, byid, idx)


def compare_node(m, n, d, byid, idx):
    w = "%s %s" % (n.cls, d["id"])
    eb = (0, None) if n.bn is None else (0 if n.bn[0] is None else idx[n.bn[0]], n.bn[1])
    if d["bns"] != eb[0]:
        yield "ns,attrs", "browse name namespace: %s has %r instead of %r" % (w, d["bns"], eb[0])
    if nt(d["bn"]) != nt(eb[1]):
        yield "attrs", "browse name: %s has %r instead of %r" % (w, d["bn"], eb[1])
    for k, e in (("dn", n.dn), ("desc", n.desc)) + ((("inv", n.inv),) if n.cls == "ReferenceType" else ()):
        el, et = e if e else (None, None)
        if nt(d[k][0]) != nt(el) or nt(d[k][1]) != nt(et):
            yield "text", "text: %s of %s is %s instead of %s" % (k, w, short(d[k]), short([el, et]))
    for a in CLASS_ATTRS[n.cls]:
        e = n.attrs.get(a, DEFAULTS[a])
        g = d.get(a)
        same = (boolof(g) == boolof(e) and g in BOOLS) if a in BOOLATTRS else nt(g) == nt(e)
        if not same:
            yield "attrs", "attribute: %s of %s is %r instead of %r" % (a, w, g, e)
    if n.cls in ("Variable", "VariableType"):
        e = id_show(n.attrs.get("DataType", nid(24)), idx)
        if d["DataType"] != e:
            yield "attrs,alias,ns", "data type: DataType of %s is %r instead of %r" % (w, d["DataType"], e)
    if n.cls in INSTANCE:
        e = NULLID if n.parent is None else id_show(n.parent, idx)
        if d["parent"] != e:
            yield "attrs,ns", "parent id: ParentNodeId of %s is %r instead of %r" % (w, d["parent"], e)
        if not d["inst"]:
            yield "nodes", "instance: %s is not an instance node" % w
    elif d["inst"]:
        yield "nodes", "instance: %s is an instance node" % w
    # references
    if n.cls in ("Object", "Variable"):
        e = [[True, id_show(n.xtra.get("tdtype", nid(40)), idx), id_show(n.td, idx)]] if n.td else []
        if d["td"] != e:
            yield "refs,alias,ns", "type definition: of %s is %r instead of %r" % (w, d["td"], e)
    h, nh, either = exp_refs(m, n, idx)
    gh, gn = [tuple(r) for r in d["h"]], [tuple(r) for r in d["n"]]
    if d["u"]:
        yield "refs", "unknown references: %s has unresolved references %r" % (w, d["u"])
    for r in either:
        if r in gh:
            gh.remove(r)
        elif r in gn:
            gn.remove(r)
        else:
            yield "refs,alias,ns", "missing reference: %s lacks %r" % (w, r)
    pr = parent_ref(m, n, byid, idx)
    if pr is not None:
        hit = [r for r in gh if r in pr]
        # remove one instance that is not a stated one
        ok = False
        for r in hit:
            if gh.count(r) > h.count(r):
                gh.remove(r); ok = True
                break
        if not ok:
            yield "refs,parent", "parent reference: %s with ParentNodeId lacks one of %r, has %r" % (w, sorted(pr), d["h"])
    if sorted(gh) != sorted(h) or sorted(gn) != sorted(nh):
        mis, ext = diff(h, gh); mis2, ext2 = diff(nh, gn)
        if sorted(gh + gn) == sorted(h + nh):
            yield "refs", "classification: %s has %r in the wrong list" % (w, mis + mis2)
        else:
            yield "refs,alias,ns", "references: %s lacks hierarchical %r other %r, has additional hierarchical %r other %r" % (w, mis, mis2, ext, ext2)
    # value
    if n.cls == "Variable":
        e = exp_value(n.value) if n.value else None
        g = d["value"]
        if not same_value(e, g):
            yield "values", "value: of %s is %s instead of %s" % (w, short(g), short(e))
            if e and g and same_value(blank(e), blank(g)):
                yield "text", "value text: of %s is %s instead of %s" % (w, short(g), short(e))
    if n.cls == "DataType":
        yield from compare_def(n, d, w, idx)
    if not n.exts and d["ext"] != -1:
        yield "ext", "extension: %s has an extension object" % w


def blank(v):
    def b(t):
        return [t[0], "c", [b(c) for c in t[2]]] if t[1] == "c" else [t[0], "p", None]
    return dict(v, data=b(v["data"]) if v["data"] else None)


def same_tree(a, b):
    if a is None or b is None or len(a) != 3 or len(b) != 3:
        return a == b
    if a[0] != b[0]:
        return False
    if a[1] == "p" and b[1] == "p":
        return nt(a[2]) == nt(b[2])
    if a[1] == "p" or b[1] == "p":   # empty either way
        return not a[2] and not b[2]
    return len(a[2]) == len(b[2]) and all(same_tree(x, y) for x, y in zip(a[2], b[2]))


def same_value(a, b):
    if a is None or b is None:
        return a is b
    return a["arr"] == b["arr"] and a["eo"] == b["eo"] and a["type"] == b["type"] and same_tree(a["data"], b["data"])


def compare_def(n, d, w, idx):
    e, g = n.defn, d["def"]
    if e is None or g is None:
        if (e is None) != (g is None):
            yield "defs", "definition: %s %s" % (w, "has an unexpected definition" if g else "lacks its definition")
        return
    os_ = boolof(e["os"])
    if g["union"] != boolof(e["union"]) or g["os"] != os_:
        yield "defs", "definition flags: %s union %r optionset %r" % (w, g["union"], g["os"])
    if os_:
        return
    isenum = any("Value" in f for f in e["fields"])
    if g["enum"] != isenum:
        yield "defs", "definition flags: %s isEnum is %r" % (w, g["enum"])
    if len(g["f"]) != len(e["fields"]):
        yield "defs", "field count: %s has %d fields instead of %d" % (w, len(g["f"]), len(e["fields"]))
        return
    for i, (f, q) in enumerate(zip(e["fields"], g["f"])):
        if nt(q[0]) != nt(f.get("Name")):
            yield "defs,text", "field name: %d of %s is %r instead of %r" % (i, w, q[0], f.get("Name"))
        if "Value" in f:
            if q[3] != int(f["Value"]):
                yield "defs", "field value: %d of %s is %r instead of %s" % (i, w, q[3], f["Value"])
            continue
        dt = id_show(f.get("DataType", nid(24)), idx)
        if q[1] != dt:
            yield "defs,alias,ns", "field type: %d of %s is %r instead of %r" % (i, w, q[1], dt)
        if q[2] != int(f.get("ValueRank", "-1")):
            yield "defs", "field rank: %d of %s is %r instead of %s" % (i, w, q[2], f.get("ValueRank"))
        if q[4] != boolof(f.get("IsOptional", "false")):
            yield "defs", "field optional: %d of %s is %r" % (i, w, q[4])


def diff(e, g):
    g = list(g)
    mis = []
    for x in e:
        if x in g:
            g.remove(x)
        else:
            mis.append(x)
    return mis, g


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def order_violations(m, dump, idx):
    """pairs of one class reported child before ancestor"""
    exp, _ = first_completed(m)
    kids = {}
    for n in exp:
        inv = False
        for fw, t, tg in n.refs:
            if not m.is_hier(t):
                continue
            if fw:
                kids.setdefault(n.id, set()).add(tg)
            else:
                kids.setdefault(tg, set()).add(n.id)
                inv = True
        if n.cls in INSTANCE and n.parent is not None and not inv:
            kids.setdefault(n.parent, set()).add(n.id)
    pos, cls = {}, {}
    for k, d in enumerate(dump["nodes"]):
        pos[d["id"]] = k
    show = {}
    for n in exp:
        s = id_show(n.id, idx)
        show[n.id] = s
        cls[s] = n.cls
    # walk with memo: earliest position per class among descendants
    memo = {}
    order, state = [], {}
    for root in list(kids):
        if root in state:
            continue
        st = [(root, iter(kids.get(root, ())))]
        state[root] = 1
        while st:
            v, it = st[-1]
            for c in it:
                if c not in state:
                    state[c] = 1
                    st.append((c, iter(kids.get(c, ()))))
                    break
            else:
                order.append(v)
                st.pop()
    for v in order:   # children before parents
        best = {}
        for c in kids.get(v, ()):
            sc = show.get(c)
            if sc in pos:
                k = cls[sc]
                if k not in best or pos[sc] < best[k][0]:
                    best[k] = (pos[sc], sc)
            for k, pv in memo.get(c, {}).items():
                if k not in best or pv < best[k]:
                    best[k] = pv
        memo[v] = best
        sv = show.get(v)
        if sv in pos and cls[sv] in best and best[cls[sv]][0] < pos[sv]:
            yield "order: %s %s is reported after its descendant %s" % (cls[sv], sv, best[cls[sv]][1])


def stats(m):
    return {"nodes": len(m.nodes), "refs": sum(len(n.refs) for n in m.nodes), "files": len(m.files), "values": sum(1 for n in m.nodes if n.value),
            "defs": sum(1 for n in m.nodes if n.defn), "aliases": sum(len(f.alias_order) for f in m.files), "reftypes": len(m.rtsuper)}
