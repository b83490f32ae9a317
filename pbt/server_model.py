"""Nodesets that can be loaded into a server: generator (types and values with a meaning) and the reference model of the
server's address space after loading."""
import base64, struct, uuid, datetime, math
from . import ns0
from . import model as M
from .model import Node, Model, File, nid, id_show, id_text, nt

# ---------------------------------------------------------------- data types
B = {"Boolean": 1, "SByte": 2, "Byte": 3, "Int16": 4, "UInt16": 5, "Int32": 6, "UInt32": 7, "Int64": 8, "UInt64": 9, "Float": 10, "Double": 11, "String": 12,
     "DateTime": 13, "Guid": 14, "ByteString": 15, "XmlElement": 16, "NodeId": 17, "ExpandedNodeId": 18, "StatusCode": 19, "QualifiedName": 20, "LocalizedText": 21,
     "ExtensionObject": 22, "DataValue": 23, "Variant": 24, "DiagnosticInfo": 25}
INTS = {"SByte": (-128, 127), "Byte": (0, 255), "Int16": (-32768, 32767), "UInt16": (0, 65535), "Int32": (-2 ** 31, 2 ** 31 - 1), "UInt32": (0, 2 ** 32 - 1),
        "Int64": (-2 ** 63, 2 ** 63 - 1), "UInt64": (0, 2 ** 64 - 1)}
VALUED = ["Boolean"] + list(INTS) + ["Float", "Double", "String", "DateTime", "Guid", "ByteString", "NodeId", "StatusCode", "QualifiedName", "LocalizedText"]
UNVALUED = [b for b in B if b not in VALUED]
STD = {  # id: (name, kind, members)
    884: ("Range", "struct", [("Low", "Double", 0), ("High", "Double", 0)]),
    887: ("EUInformation", "struct", [("NamespaceUri", "String", 0), ("UnitId", "Int32", 0), ("DisplayName", "LocalizedText", 0), ("Description", "LocalizedText", 0)]),
    296: ("Argument", "struct", [("Name", "String", 0), ("DataType", "NodeId", 0), ("ValueRank", "Int32", 0), ("ArrayDimensions", "UInt32", 1), ("Description", "LocalizedText", 0)]),
    7594: ("EnumValueType", "struct", [("Value", "Int64", 0), ("DisplayName", "LocalizedText", 0), ("Description", "LocalizedText", 0)]),
    8912: ("TimeZoneDataType", "struct", [("Offset", "Int16", 0), ("DaylightSavingInOffset", "Boolean", 0)]),
    12080: ("XVType", "struct", [("X", "Double", 0), ("Value", "Float", 0)]),
    12171: ("ComplexNumberType", "struct", [("Real", "Float", 0), ("Imaginary", "Float", 0)]),
    12172: ("DoubleComplexNumberType", "struct", [("Real", "Double", 0), ("Imaginary", "Double", 0)]),
    338: ("BuildInfo", "struct", [("ProductUri", "String", 0), ("ManufacturerName", "String", 0), ("ProductName", "String", 0), ("SoftwareVersion", "String", 0), ("BuildNumber", "String", 0), ("BuildDate", "DateTime", 0)]),
    12079: ("AxisInformation", "struct", [("EngineeringUnits", 887, 0), ("EURange", 884, 0), ("Title", "LocalizedText", 0), ("AxisScaleType", 12077, 0), ("AxisSteps", "Double", 1)]),
    12077: ("AxisScaleEnumeration", "enum", None), 307: ("ApplicationType", "enum", None), 302: ("MessageSecurityMode", "enum", None), 852: ("ServerState", "enum", None),
}
BID = {v: k for k, v in B.items()}
# standard data types without members of their own
STDALIAS = {}
for _i, (_c, _n, _a) in ns0.NODES.items():
    _s = _i
    while _s in ns0.SUPERTYPE and _s > 21:
        _s = ns0.SUPERTYPE[_s]
    if _c == 64 and _i not in BID and _s in BID and _s < 22:
        STDALIAS[_i] = BID[_s]
ABSTRACT_STD = [24, 26, 27, 28]           # members of these types are variants


class Type:
    """kind: builtin, enum, struct, opt, union, alias, none (abstract number: no data type is generated)"""
    __slots__ = ("kind", "name", "id", "own", "base", "abstract", "node", "enc", "basename", "optset", "broken")

    def __init__(self, kind, name, id):
        self.kind, self.name, self.id = kind, name, id
        self.broken = False    # more members or bytes than the library can describe: the type stays without members
        self.own, self.base, self.abstract, self.node, self.enc, self.basename, self.optset = [], None, False, None, None, None, False

    def members(self):
        if self.broken:
            return []
        return (self.base.members() if self.base and self.kind != "union" else []) + self.own

    def fields(self):
        return (self.base.members() if self.base and self.kind != "union" else []) + self.own

    def isopt(self):
        return self.kind == "struct" and any(m[3] for m in self.members())


_T = {}


def std(i):
    """Type of a standard data type"""
    if i in _T:
        return _T[i]
    if i in BID:
        t = Type("builtin", BID[i], nid(i))
    else:
        name, kind, mem = STD[i]
        t = Type(kind, name, nid(i))
        _T[i] = t
        t.own = [(n, std(B[x] if isinstance(x, str) else x), bool(a), False) for n, x, a in (mem or [])]
    _T[i] = t
    return t


# ---------------------------------------------------------------- values
class Id:
    """a node id whose namespace index is only known later"""
    def __init__(self, i):
        self.i = i


class Ns:
    def __init__(self, uri):
        self.uri = uri


def _int(src, lo, hi):
    k = src.int(7)
    if k == 0:
        return src.range(0, min(hi, 100))
    if k == 1:
        return hi
    if k == 2:
        return lo
    if k == 3:
        return src.pick([v for v in (-1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 53 + 1, -2 ** 31, -2 ** 53 - 1, 1, hi // 2 + 1, lo // 2) if lo <= v <= hi])
    return src.rngseed().randint(lo, hi)


class VGen:
    def __init__(self, src, uris, big=0.02):
        self.src, self.uris, self.big = src, uris, big
        self.used = set()
        self.labels = set()
        self.budget = 300
        self.m = None

    def builtin(self, b):
        """(text or tree members, expected value); trees: list of [name, 'p'|'c', ...]"""
        s = self.src
        if s.chance(0.05):
            self.labels.add("empty")
            return None, null(b)
        if b == "Boolean":
            t = s.pick(["true", "false", "1", "0"])
            return t, int(t in ("true", "1"))
        if b in INTS:
            v = _int(s, *INTS[b])
            t = str(v)
            if s.chance(0.08):      # other lexical forms of XML Schema
                t = ("-" if v < 0 else s.pick(["", "+"])) + s.pick(["0", "00", ""]) + str(abs(v))
            return t, v
        if b in ("Float", "Double"):
            k = s.int(7)
            if k == 0:
                t = str(s.range(-100, 100))
            elif k == 1:
                t = s.pick(["0.1", "-2.5", "1e10", "3.4028235e38", "-0", "1E-5", "123456789.125", "0.000001", "6.02214076E23", "1.17549435e-38", ".5", "-.25", "+1.5", "7.", "00012.50"])
            elif k == 2:
                t = s.pick(["INF", "-INF", "NaN"]) if b == "Double" or 1 else "0"
            elif k == 3 and b == "Double":
                t = repr(s.rngseed().uniform(-1e300, 1e300))
            elif k == 4 and b == "Double":
                t = s.pick(["1.7976931348623157e308", "4.9e-324", "0.30000000000000004", "9007199254740993"])
            else:
                t = "%.9g" % s.rngseed().uniform(-1e6, 1e6)
            v = float(t.replace("INF", "inf"))
            return t, ("F" if b == "Float" else "D", v)
        if b == "String":
            t = M.big_text(s, s.range(200, 4000)) if s.chance(self.big) else M.gen_text(s, 60)
            return t, (t if t.strip(" \t\r\n") else None)
        if b == "DateTime":
            y = s.pick([2020, 1601, 1970, 1969, 2038, 2000, 1900, 9999, 1999]) if s.int(2) else s.range(1602, 9998)
            mo, d = s.range(1, 12), s.range(1, 28)
            if s.int(5) == 0:
                mo, d = 12, 31
            if s.int(6) == 0 and (y % 4 == 0 and (y % 100 or y % 400 == 0)):
                mo, d = 2, 29
            h, mi, se = s.range(0, 23), s.range(0, 59), s.range(0, 59)
            t = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, se)
            ticks = int((datetime.datetime(y, mo, d, h, mi, se) - datetime.datetime(1601, 1, 1)).total_seconds()) * 10 ** 7
            nf = s.pick([0, 0, 3, 6, 7, 1, 2, 9])
            if nf:
                fr = "".join(str(s.int(10)) for _ in range(nf))
                t += "." + fr
                ticks += int((fr + "0000000")[:7])
                self.labels.add("fraction")
            return t + (s.pick(["Z", ""]) if s.int(4) == 0 else "Z"), ticks
        if b == "Guid":
            g = uuid.UUID(int=s.rngseed().getrandbits(128))
            t = str(g).upper() if s.int(2) else str(g)
            return [["String", "p", t]], g.hex
        if b == "ByteString":
            n = s.size(20, 200)
            r = s.rngseed()
            d = bytes(r.randrange(256) for _ in range(n))
            t = base64.b64encode(d).decode()
            if t and s.int(3) == 0:
                k = s.pick([4, 76, 3, 1])
                t = s.pick(["\n", " ", "\r\n  "]).replace("\r", "").join(t[i:i + k] for i in range(0, len(t), k))
                if s.int(2):
                    t = "\n    " + t + "\n  "
            return (t if d else None), (d.hex() if d else None)
        if b == "NodeId":
            i = self.anyid()
            return [["Identifier", "p", lambda fx, r: id_text(i, fx)]], Id(i)
        if b == "StatusCode":
            v = s.pick([0, 0x80000000, 0x80340000, 2 ** 32 - 1, 0x40000000, 1]) if s.int(2) else _int(s, 0, 2 ** 32 - 1)
            if s.chance(0.05):
                return [], 0
            return [["Code", "p", str(v)]], v
        if b == "QualifiedName":
            u = s.pick(self.uris + [None]) if self.uris else None
            if u:
                self.used.add(u)
            name = M.gen_text(s, 40)
            parts, e = [], [0, None]
            if s.int(6):
                parts.append(["NamespaceIndex", "p", lambda fx, r: str(fx[u]) if u else "0"]); e[0] = Ns(u)
            if s.int(6):
                parts.append(["Name", "p", name]); e[1] = name if name.strip(" \t\r\n") else None
            if s.int(4) == 0:
                parts.reverse()
            return parts, e
        if b == "LocalizedText":
            parts, e = [], [None, None]
            if s.int(4):
                l = s.pick(["en", "de-DE", "", "zh"]); parts.append(["Locale", "p", l]); e[0] = l or None
            if s.int(6):
                t = M.gen_text(s, 60); parts.append(["Text", "p", t]); e[1] = t if t.strip(" \t\r\n") else None
            if s.int(4) == 0:
                parts.reverse()
            return parts, e
        raise KeyError(b)

    def anyid(self):
        s = self.src
        u = s.pick(self.uris + [None]) if self.uris else None
        if u:
            self.used.add(u)
        k = s.pick("iisgb")
        if k == "i":
            v = _int(s, 1, 2 ** 32 - 1)
        elif k == "s":
            v = s.pick(["abc", "a;b=c", "ns=5;i=7", "Größe", "x" * 120, "&<>"])
        elif k == "g":
            v = uuid.UUID(int=s.rngseed().getrandbits(128)).hex
        else:
            v = bytes(s.rngseed().randrange(256) for _ in range(1 + s.int(9))).hex()
        return (u, k, v)

    def value(self, t, depth=0):
        """(content, expected): content is text, None or list of trees"""
        s = self.src
        if t.kind == "builtin":
            return self.builtin(t.name)
        if t.kind == "alias":
            return self.builtin(t.basename)
        if t.kind == "enum":
            if s.chance(0.05):
                return None, 0
            v = s.pick([0, 1, 2, 5, -1, 2147483647]) if s.int(2) else s.range(0, 300)
            nm = s.pick(["Name_", "A_B_", "", "", "Größe_", "_"])
            return nm + str(v), v
        if t.kind == "union":
            ms = t.members()
            ok = [i for i, m in enumerate(ms) if valuable(m[1])]
            if not ok or s.chance(0.15) or depth > 5 or self.budget < 0:
                return [["SwitchField", "p", "0"]], {"sw": 0}
            i = s.pick(ok)
            n, mt, arr, _ = ms[i]
            c, e = self.member(n, mt, arr, depth)
            tree = [["SwitchField", "p", str(i + 1)], c]
            if s.int(5) == 0:
                tree.reverse()
            self.labels.add("union")
            return tree, {"sw": i + 1, "m": n, "v": e}
        # structures
        tree, exp = [], []
        mask, bit = 0, 0
        for n, mt, arr, opt in t.members():
            present = valuable(mt) and s.int(8) and not (depth > 3 and (opt or arr))
            self.budget -= 1
            if depth > 6 or self.budget < 0:
                present = False
            if opt and present:
                present = s.int(3) > 0
            if present:
                c, e = self.member(n, mt, arr, depth)
                tree.append(c)
                if opt:
                    mask |= 1 << bit
                exp.append([n, {"some": e} if opt and not arr else e])
            else:
                self.labels.add("missing member")
                exp.append([n, None if opt and not arr else [] if arr else nullof(mt)])
            bit += bool(opt)
        if s.int(5) == 0:
            s.shuffle(tree)
        if t.isopt():
            tree.insert(0, ["EncodingMask", "p", str(mask)])
            self.labels.add("optional members")
        return tree, exp

    def stretch(self, els, exp):
        """repeats the elements to more than 16 bits can count"""
        if len(repr(els)) // len(els) > 60:
            return
        self.m.hugeleft -= 1
        self.labels.add("huge array")
        k = self.src.pick(M.HUGE)
        w = len(els)
        els[:] = (els * (k // w + 1))[:k]
        exp[:] = (exp * (k // w + 1))[:k]

    def member(self, n, mt, arr, depth):
        if arr:
            k = self.src.size(3, 12)
            if depth < 3 and mt.kind in ("builtin", "alias") and self.src.chance(0.02):
                k = M.long_count(self.src, 520)
                self.labels.add("long array")
            if depth > 3:
                k = min(k, 1)
            els, e = [], []
            if depth > 5:
                k = 0
            for _ in range(k):
                c, x = self.value(mt, depth + 1)
                els.append(leaf(mt.name or "X", c)); e.append(x)
            if els and depth < 3 and self.m and self.m.hugeleft:
                self.stretch(els, e)
            self.labels.add("array member")
            return [n, "c", els] if els else [n, "p", None], e
        c, x = self.value(mt, depth + 1)
        return leaf(n, c), x


def leaf(name, c):
    if c is None or isinstance(c, str):
        return [name, "p", c]
    return [name, "c", c] if c else [name, "p", None]


def valuable(t, seen=()):
    if t.kind == "builtin":
        return t.name in VALUED
    if t.kind == "alias":
        return t.basename in VALUED
    if t.kind == "none" or t.abstract or t.optset:
        return False
    return True


def null(b):
    return {"Boolean": 0, "Float": ("F", 0.0), "Double": ("D", 0.0), "String": None, "DateTime": ANYTIME0, "Guid": "0" * 32, "ByteString": None, "NodeId": Id(nid(0)),
            "StatusCode": 0, "QualifiedName": [0, None], "LocalizedText": [None, None]}.get(b, 0 if b in INTS else ANY)


ANY = ("ANY",)
ANYTIME0 = 0


def nullof(t):
    if t.kind in ("builtin", "alias"):
        return null(t.name if t.kind == "builtin" else t.basename)
    if t.abstract or t.kind == "none" or t.optset:
        return ANY
    if t.kind == "enum":
        return 0
    if t.kind == "union":
        return {"sw": 0}
    return NULLSTRUCT


NULLSTRUCT = ("NULLSTRUCT",)


def is_null(v):
    """dumped value that is the null value of its type"""
    if v is None or v == 0 or v == "" or v == "NULLVALUE" or v == "0;i=0" or v == "f00000000" or v == "d0000000000000000" or v == "0" * 32:
        return True
    if isinstance(v, dict):
        return v.get("sw") == 0
    if isinstance(v, list):
        return all(is_null(x[1] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and not _isq(v) else x) for x in v)
    return False


def _isq(v):
    return False


def same(e, g, idx):
    if e is ANY:
        return True
    if e is NULLSTRUCT:
        return isinstance(g, list) and all(isinstance(x, list) and len(x) == 2 and null_any(x[1]) for x in g)
    if e is None:
        return g is None or g == ""
    if isinstance(e, Id):
        return g == id_show(e.i, idx)
    if isinstance(e, Ns):
        return g == (idx[e.uri] if e.uri else 0)
    if isinstance(e, tuple) and e[0] in "FD":
        if not isinstance(g, str) or g[:1] not in "fd":
            return False
        if e[0] == "F":
            v = struct.unpack(">f", bytes.fromhex(g[1:]))[0] if g[0] == "f" else None
            if v is None:
                return False
            if math.isnan(e[1]):
                return math.isnan(v)
            try:
                w = struct.unpack(">f", struct.pack(">f", e[1]))[0]
            except OverflowError:
                w = math.copysign(math.inf, e[1])
            return v == w and math.copysign(1, v) == math.copysign(1, w)
        v = struct.unpack(">d", bytes.fromhex(g[1:]))[0] if g[0] == "d" else None
        if v is None:
            return False
        if math.isnan(e[1]):
            return math.isnan(v)
        return v == e[1] and math.copysign(1, v) == math.copysign(1, e[1])
    if isinstance(e, dict):
        return isinstance(g, dict) and set(e) == set(g) and all(same(e[k], g[k], idx) for k in e)
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(same(a, b, idx) for a, b in zip(e, g))
    return e == g


def null_any(g):
    if g in (None, 0, "", "NULLVALUE", "0;i=0", "f00000000", "d0000000000000000", "0" * 32):
        return True
    if isinstance(g, list):
        if all(isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) for x in g):
            return all(null_any(x[1]) for x in g)
        return all(null_any(x) for x in g)
    if isinstance(g, dict):
        return g.get("sw") == 0
    return False


# ---------------------------------------------------------------- generator
class SCfg:
    nodes = (8, 40)
    types = (4, 20)
    reftypes = (2, 8)
    files = 1
    uris = 4
    values = 0.7
    kinds = None           # restricts the data types of variables: "builtin", "custom"
    attrs = 0.6
    weird_ids = 0.3
    aliases = 0.5
    extra_aliases = (2, 10)
    bigtext = 0.02
    ext = 0.0
    shuffle = True
    hist = 0.5             # parents of classes that are added later
    selfref = True
    redefine = 0.0
    members = (4, 14)
    crossuris = True
    pre = 0.4
    manyuris = 0.03
    huge = 0.0             # one array or member array is longer than 16 bits can count; runs without sanitizers
    chain = 0.02           # long chains of instances, each below the one before
    tdsub = 0.0            # reference types derived from HasTypeDefinition

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)


TDOBJ = [nid(58), nid(61), nid(76)]
TDVAR = [nid(63), nid(68), nid(2365)]
MNAMES = ["A", "B", "Value", "x", "Größe", "Text", "Locale", "Name", "Identifier", "SwitchField2", "Body", "TypeId", "ListOfInt32", "String", "Range", "Low", "N", "AMemberNameOf32CharactersExactly", "ThisIsOneOfTheLongerNamesOfMembersThatAreInUseInTheWild", "L" * 150]


def gen(src, cfg):
    m = Model()
    m.types = {}          # id -> Type of custom data types
    m.huge = bool(cfg.huge) and src.chance(cfg.huge)
    m.hugeleft = 1 if m.huge else 0
    nu = src.range(1, cfg.uris)
    if src.chance(cfg.manyuris):   # indices of two and three digits
        nu = src.pick([12, 30, 120])
        m.labels.add("many uris")
    uris = [M.URIS[i] if i < len(M.URIS) else "urn:n:%d" % i for i in range(nu)]
    if src.chance(0.1):
        uris[-1] = "urn:open62541.server.application"
    m.pre = []
    if src.chance(cfg.pre):
        m.pre = [u for u in uris + ["urn:pre:1", "urn:pre:2"] if src.int(3) == 0]
        src.shuffle(m.pre)
    nf = src.range(1, cfg.files)
    used, nodes = set(), m.nodes
    k = [0]

    def mk(cls, fi, pool=None):
        n = Node(cls, M.gen_id(src, pool or uris, used, cfg, k[0])); k[0] += 1
        n.file = fi
        n.bn = (src.pick(uris) if src.int(3) else None, src.pick(M.NAMES[:5]) + str(k[0]) if src.int(3) == 0 else "N%d" % k[0])
        if src.int(6):
            n.dn = (src.pick([None, "en", "de-DE", ""]), M.gen_text(src, 40))
        if src.chance(0.3):
            n.desc = (src.pick([None, "en"]), M.big_text(src, src.range(100, 3000)) if src.chance(cfg.bigtext) else M.gen_text(src, 60))
        n.xtra = {"uris": set()}
        nodes.append(n)
        return n

    for fi in range(nf):
        gen_types_of_file(src, cfg, m, fi, mk, uris)
    m.files = [File() for _ in range(nf)]
    fcfg = M.Cfg(aliases=cfg.aliases, extra_aliases=cfg.extra_aliases, shuffle=cfg.shuffle)
    M.finish_files(src, m, fcfg, uris)
    m.pretable, m.nsstart = [], 1
    m.complete_tables()
    return m


def rt_pool(m, fi):
    h = [nid(47), nid(35), nid(46), nid(49), nid(36)] + [n.id for n in m.nodes if n.cls == "ReferenceType" and n.file <= fi and m.rtclass(n.id) == "h" and not M.boolof(n.attrs.get("IsAbstract", ""))]
    h = [x for x in h if x in (nid(47), nid(35), nid(46), nid(49), nid(36)) or True]
    nh = [nid(39), nid(37), nid(41)] + [n.id for n in m.nodes if n.cls == "ReferenceType" and n.file <= fi and m.rtclass(n.id) == "n" and not M.boolof(n.attrs.get("IsAbstract", ""))]
    return h, nh


def gen_types_of_file(src, cfg, m, fi, mk, uris):
    nodes = m.nodes
    # reference types
    for _ in range(src.size(*cfg.reftypes)):
        n = mk("ReferenceType", fi)
        old = [x for x in nodes[:-1] if x.cls == "ReferenceType"]
        sup = src.pick(old).id if old and src.int(2) else nid(src.pick([33, 32, 47, 35, 46, 49, 41, 44])) if not src.chance(cfg.tdsub) else nid(40)
        m.rtsuper[n.id] = sup
        n.refs.append((False, nid(45), sup))
        if src.chance(0.5):
            n.inv = (src.pick([None, "en"]), M.gen_text(src, 30))
        M.gen_attrs(src, n, cfg, [])
        if n.attrs.get("IsAbstract") and src.int(2):
            n.attrs["IsAbstract"] = "false"
        extra_parent(src, m, n)
    hier, nonh = rt_pool(m, fi)
    # data types
    gen_datatypes(src, cfg, m, fi, mk)
    # object and variable types
    for _ in range(src.size(2, 6)):
        cls = src.pick(["ObjectType", "VariableType"])
        n = mk(cls, fi)
        old = [x for x in nodes[:-1] if x.cls == cls]
        sup = src.pick(old).id if old and src.int(2) else (nid(58) if cls == "ObjectType" else src.pick([nid(63), nid(62)]))
        n.refs.append((False, nid(45), sup))
        extra_parent(src, m, n)
        dts = [nid(i) for i in (1, 6, 12, 24, 21, 22, 11, 26)] + list(m.types)
        M.gen_attrs(src, n, cfg, dts)
    # instances
    total = max(1, src.size(*cfg.nodes))
    # every instance below the one before it: what belongs to one class of nodes waits for another one on each level
    m.chain = src.chance(cfg.chain)
    if m.chain:
        total = src.range(30, 120)
    for j in range(total):
        cls = src.weighted([("Object", 5), ("Variable", 7), ("Method", 0 if m.chain else 2), ("View", 0 if m.chain else 1)])
        n = mk(cls, fi)
        gen_instance(src, cfg, m, n, hier, nonh, uris)
    if src.chance(0.01):      # a node with very many references
        n = src.pick([x for x in nodes if x.file == fi and not x.xtra.get("enc")])
        tg = [x.id for x in nodes] + [nid(58), nid(85), nid(2253), nid(61)]
        c = [(f, t, i) for i in tg for t in nonh for f in (True, False) if i != n.id]
        for x in c[:M.long_count(src, 1000)]:
            if x not in n.refs:
                n.refs.append(x)
        m.labels.add("many references")
    # references among existing nodes
    mine = [n for n in nodes if n.file == fi]
    if cfg.ext:
        for n in mine:
            if src.chance(cfg.ext):
                n.exts = [[M.gen_ext_tree(src, 1) for _ in range(src.int(3))]]
    # types with a reference to their subtypes as well
    byid = {n.id: n for n in mine}
    for n in mine:
        if n.cls in ("DataType", "ObjectType", "VariableType", "ReferenceType"):
            for fw, t, tg in list(n.refs):
                if not fw and t == nid(45) and tg in byid and src.int(3) == 0:
                    byid[tg].refs.insert(src.int(len(byid[tg].refs) + 1), (True, nid(45), n.id))
    for n in mine:
        if n.xtra.get("enc"):
            continue
        i = nodes.index(n) if len(nodes) < 60 else None
        for _ in range(src.int(3)):
            t = src.pick(nonh)
            tg = src.pick(nodes).id if src.int(3) else src.pick([nid(58), nid(85), nid(2253), nid(61)])
            n.refs.append((bool(src.int(2)), t, tg))


def extra_parent(src, m, n):
    """types may be organized by folders as well, the supertype remains their parent in the server"""
    if src.int(8):
        return
    inst = [x for x in m.nodes if x.cls in ("Object", "View") and x is not n and not x.xtra.get("enc")]
    tg = src.pick(inst).id if inst and src.int(2) else src.pick([nid(85), nid(86), nid(2253)])
    n.refs.insert(src.int(2), (False, nid(35), tg))
    m.labels.add("type with a folder")


def gen_datatypes(src, cfg, m, fi, mk):
    new = []
    for _ in range(src.size(*cfg.types)):
        n = mk("DataType", fi)
        kind = src.weighted([("struct", 6), ("enum", 2), ("union", 2), ("alias", 3), ("none", 1), ("optset", 1)])
        t = Type(kind, n.bn[1], n.id)
        t.node = n
        n.bn = (n.bn[0], n.bn[1])
        olds = [x for x in m.types.values() if not x.optset]
        base = nid(22)
        if kind == "struct":
            cand = [x for x in olds if x.kind == "struct" and len(x.members()) < 60]
            r = src.int(10)
            if cand and r < 4:
                t.base = src.pick(cand); base = t.base.id
            elif r == 4:
                t.base = std(src.pick([884, 887, 296, 7594, 8912])); base = t.base.id
            t.abstract = src.chance(0.12)
        elif kind == "enum":
            base = nid(29)
            cand = [x for x in olds if x.kind == "enum"]
            if cand and src.int(6) == 0:
                base = src.pick(cand).id
        elif kind == "union":
            base = nid(12756)
        elif kind == "alias":
            b = src.pick(VALUED if src.int(4) else UNVALUED[:1] + ["XmlElement", "ExpandedNodeId"])
            t.basename = b; base = nid(B[b])
            cand = [x for x in olds if x.kind == "alias"]
            if cand and src.int(4) == 0:
                c = src.pick(cand); t.basename = c.basename; base = c.id
            elif src.int(4) == 0:
                c = src.pick(sorted(STDALIAS)); t.basename = STDALIAS[c]; base = nid(c)
            if src.int(6) == 0:
                n.defn = {"kind": "optionset", "union": None, "os": "true", "fields": [{"Name": "Bit%d" % i, "Value": str(i)} for i in range(src.int(4))]}
        elif kind == "none":
            base = nid(src.pick([24, 26, 27, 28]))
            t.abstract = bool(src.int(2))
        elif kind == "optset":
            t.kind, t.optset = "struct", True
            base = nid(12755)
            n.defn = {"kind": "optionset", "union": None, "os": "true", "fields": [{"Name": "Bit%d" % i, "Value": str(i)} for i in range(src.int(6))]}
        n.refs.append((False, nid(45), base))
        extra_parent(src, m, n)
        if t.abstract:
            n.attrs["IsAbstract"] = src.pick(["true", "1"])
        elif src.int(4) == 0:
            n.attrs["IsAbstract"] = src.pick(["false", "0"])
        m.types[n.id] = t
        new.append(t)
    for i, t in enumerate(new):
        n = t.node
        if t.optset:
            pass
        elif t.kind in ("struct", "union"):
            names = set(x[0] for x in (t.base.members() if t.base else []))
            cnt = src.size(*cfg.members)
            wide = src.chance(0.008)
            if wide:
                cnt = src.pick([63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512])
            if t.kind == "union" and cnt == 0:
                cnt = 1
            fields = []
            for j in range(cnt):
                nm = src.pick(MNAMES) if src.int(3) == 0 else "m%d" % j
                if src.int(300) == 0:
                    nm = M.long_name(src)
                elif names and src.int(25) == 0:      # names which differ in case only
                    nm = src.pick(sorted(names)).swapcase()
                while nm in names:
                    nm += "_%d" % j
                names.add(nm)
                arr = src.int(4) == 0
                opt = t.kind == "struct" and src.int(6) == 0 and not (wide and j > 20)
                mt, dt = gen_member_type(src, m, new, i, t, arr or opt, cfg)
                f = {"Name": nm}
                if dt != nid(24) or src.int(2):
                    f["DataType"] = dt
                if arr:
                    f["ValueRank"] = src.pick(["1", "1", "0", "2"])
                elif src.int(3) == 0:
                    f["ValueRank"] = src.pick(["-1", "-2", "-3"])
                if opt:
                    f["IsOptional"] = src.pick(["true", "1"])
                elif src.int(5) == 0:
                    f["IsOptional"] = src.pick(["false", "0"])
                fields.append(f)
                t.own.append((nm, mt, arr, opt))
            if fields or src.int(2):
                n.defn = {"kind": t.kind, "union": src.pick(["true", "1"]) if t.kind == "union" else src.pick([None, None, "false"]), "os": src.pick([None, None, "false"]), "fields": fields}
        elif t.kind == "enum" and src.int(5):
            n.defn = {"kind": "enum", "union": None, "os": None, "fields": [{"Name": "V%d" % j, "Value": str(j)} for j in range(1 + src.int(5))]}
        if len(t.fields()) > 255:
            t.broken = True
    break_huge(new)
    for i, t in enumerate(new):
        n = t.node
        # encodings
        if t.kind in ("struct", "union") and not t.optset and src.int(4):
            e = mk("Object", fi)
            e.bn = (None, "Default Binary"); e.td = nid(76)
            e.refs.append((False, nid(38), n.id))
            e.xtra["enc"] = True
            t.enc = e.id
            if src.int(3) == 0:
                e2 = mk("Object", fi)
                e2.bn = (None, "Default XML"); e2.td = nid(76); e2.xtra["enc"] = True
                e2.refs.append((False, nid(38), n.id))
                if src.int(2):      # in the notation of the data type, too
                    n.refs.insert(src.int(len(n.refs) + 1), (True, nid(38), e2.id))
                    if src.int(3) == 0:
                        e2.refs.pop()
            if src.int(3) == 0:
                n.refs.insert(src.int(len(n.refs) + 1), (True, nid(38), e.id))
                if src.int(2):      # or only there
                    e.refs.pop()
                    m.labels.add("encoding listed by the data type only")


def break_huge(new):
    """types of more than 65535 bytes"""
    def leaves(t, seen=()):
        if t.kind not in ("struct", "union") or t.id[0] is None or t in seen or len(seen) > 20:
            return 1
        n = 0
        for _, mt, arr, opt in t.members():
            n += 1 if arr or opt or mt.abstract else leaves(mt, seen + (t,))
            if n > 5000:
                break
        return n
    if not any(len(t.members()) > 60 for t in new) or all(leaves(t) < 500 for t in new):
        return
    done = set()

    def visit(t):
        if t in done or t not in new:
            return
        done.add(t)
        if t.base:
            visit(t.base)
        for _, mt, arr, opt in t.own:
            if not arr and not opt:
                visit(mt)
        if t.kind in ("struct", "union") and t.members() and not t.optset:
            if t.base and t.base.broken and t.base in new and len(t.base.fields()) <= 255 or Layout(layout_base()).of(t)[0] > 65535:
                t.broken = True
    for t in new:
        visit(t)


def depends(t, x):
    """does t contain x by value (not by array or optional member)?"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if id(y) in seen:
            continue
        seen.add(id(y))
        if y.base:
            todo.append(y.base)
        for _, mt, arr, opt in y.own:
            if not arr and not opt and not mt.abstract:
                todo.append(mt)
    return False


def gen_member_type(src, m, new, i, owner, indirect, cfg):
    k = src.int(10)
    if k < 5 or (not m.types):
        b = src.pick(VALUED) if src.int(5) else src.pick(list(B))
        return std(B[b]), nid(B[b])
    if k == 5:
        s = src.pick(sorted(STD))
        return std(s), nid(s)
    if k == 6 and src.int(3) == 0:
        return Type("none", "Variant", None), nid(src.pick(ABSTRACT_STD))
    cand = list(m.types.values())
    c = src.pick(cand)
    if owner in anc(c) and not indirect or (not indirect and depends(c, owner)):
        return std(6), nid(6)
    if not cfg.selfref and (depends(c, owner)):
        return std(6), nid(6)
    # inherited members of subtypes of the owner are completed later, so a base must not contain its subtypes
    return c, c.id


def anc(t):
    r = []
    while t:
        r.append(t)
        t = t.base
    return r


def gen_instance(src, cfg, m, n, hier, nonh, uris):
    nodes = m.nodes
    inst = [x for x in nodes if x is not n and x.cls in ("Object", "Variable", "ObjectType", "VariableType", "Method", "View") and not x.xtra.get("enc")]
    same_file = [x for x in inst if x.file == n.file]
    if n.cls == "Object":
        ots = [x.id for x in nodes if x.cls == "ObjectType" and not M.boolof(x.attrs.get("IsAbstract", ""))]
        if src.int(4):
            n.td = src.pick(TDOBJ[:2] + ots)
    elif n.cls == "Variable":
        vts = [x.id for x in nodes if x.cls == "VariableType" and not M.boolof(x.attrs.get("IsAbstract", ""))]
        if src.int(4):
            n.td = src.pick(TDVAR + vts)
    if n.td and cfg.tdsub:
        tds = [x.id for x in nodes if x.cls == "ReferenceType" and x.file <= n.file and m.rtclass(x.id) == "t"]
        if tds and src.int(2):
            n.xtra["tdtype"] = src.pick(tds)
    # parent
    how = src.weighted([("inv", 5), ("both", 4), ("pid", 2), ("pidfwd", 2), ("fwd", 1 if n.cls in ("Object", "Variable") else 0), ("none", 1 if n.cls in ("Object", "Variable") else 0)])
    rt = src.pick(hier)
    anchor = src.pick([nid(85), nid(85), nid(2253), nid(87)])
    p = src.pick(inst) if inst and src.int(5) else None
    if m.chain and inst and src.int(20):
        p = inst[-1]
    n.xtra["how"] = how
    if how in ("inv", "both"):
        pid = p.id if p else anchor
        n.refs.append((False, rt, pid))
        if how == "both":
            n.parent = pid
            if p and p.file == n.file and src.int(2):
                p.refs.append((True, rt, n.id))
            if src.int(4) == 0 and inst:      # a second parent
                q = src.pick(inst)
                x = (False, src.pick(hier), q.id)
                if x not in n.refs:
                    n.refs.append(x)
        elif src.int(5) == 0 and inst:
            q = src.pick(inst)
            x = (False, src.pick(hier), q.id)
            if x not in n.refs:
                n.refs.append(x)
    elif how == "pid":
        n.parent = p.id if p else anchor
    elif how == "pidfwd":
        if p and p.file == n.file:
            n.parent = p.id
            p.refs.append((True, rt, n.id))
        else:
            n.parent = p.id if p else anchor
    elif how == "fwd" and same_file:
        q = src.pick(same_file)
        q.refs.append((True, rt, n.id))
    dts = [nid(i) for i in (1, 6, 12, 24, 21, 22, 11, 26)]
    M.gen_attrs(src, n, cfg, dts + list(m.types))
    if n.cls == "Variable" and src.chance(cfg.values):
        gen_var_value(src, cfg, m, n, uris)


def gen_var_value(src, cfg, m, n, uris):
    c = [t for t in m.types.values() if valuable(t)]
    aliases = [t for t in c if t.kind == "alias"]
    custom = [t for t in c if t.kind in ("struct", "union", "enum")]
    r = src.int(10)
    if cfg.kinds == "builtin":
        t = src.pick(aliases) if aliases and r < 2 else std(B[src.pick(VALUED)])
    elif cfg.kinds == "custom":
        t = src.pick(custom) if custom and r < 8 else std(src.pick(sorted(STD)))
    elif r < 5:
        t = std(B[src.pick(VALUED)])
    elif r < 6 and aliases:
        t = src.pick(aliases)
    elif r < 9 and custom:
        t = src.pick(custom)
    else:
        t = std(src.pick(sorted(STD)))
    n.attrs["DataType"] = t.id
    if t.kind == "builtin" and src.int(6) == 0:
        c = [i for i in STDALIAS if STDALIAS[i] == t.name]
        if c:
            n.attrs["DataType"] = nid(src.pick(c))
    arr = src.int(3) == 0
    g = VGen(src, uris)
    g.m = m
    wrap = t.kind in ("struct", "union")
    name = t.name
    if t.kind == "enum":
        name = "Int32"
    elif t.kind == "alias":
        name = t.basename
    tid = src.pick(["i=297", "ns=1;i=5001", "ns=1;s=Enc"])
    if arr:
        k = src.size(4, 40)
        if src.chance(0.02):
            k = M.long_count(src, 1025 if not wrap else 300)
            g.labels.add("long array")
            if t.kind in ("builtin", "alias") and src.int(20) == 0 and name in INTS:
                k = 4097
        if wrap and k == 0:
            k = 1
        els, exp = [], []
        for _ in range(k):
            c_, e = g.value(t)
            els.append(leaf(name, c_)); exp.append(e)
        if els and m.hugeleft:
            g.stretch(els, exp)
        if wrap:
            n.value = {"kind": "listeo", "type": tid, "tree": ["ListOfExtensionObject", "c", els]}
        else:
            n.value = {"kind": "list", "type": name if els else None, "tree": ["ListOf" + name, "c", els]}
        n.xtra["val"] = (t, True, exp)
        if src.int(3):
            n.attrs["ValueRank"] = "1"
    else:
        c_, e = g.value(t)
        n.value = {"kind": "eo" if wrap else "scalar", "type": tid, "tree": leaf(name, c_)}
        if wrap and n.value["tree"][1] == "p":
            n.value["tree"] = [name, "c", []]
        n.xtra["val"] = (t, False, e)
        if "ValueRank" in n.attrs and int(n.attrs["ValueRank"]) >= 0:
            n.attrs["ValueRank"] = "-1"
    n.xtra["uris"] |= g.used
    n.xtra["labels"] = g.labels
    if "ArrayDimensions" in n.attrs and src.int(2):
        del n.attrs["ArrayDimensions"]
    if arr:
        n.attrs.pop("ArrayDimensions", None)
        if src.int(4) == 0:
            n.attrs["ArrayDimensions"] = "0"


# ---------------------------------------------------------------- layout
def align_up(x, a):
    return (x + a - 1) // a * a


PFREE = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "DateTime", "Guid", "StatusCode"}
_BASE = None


def layout_base():
    """name -> (size, alignment, pointer free) of the library's own types, as the C compiler sees its headers"""
    global _BASE
    if _BASE is None:
        from . import build
        import hashlib, subprocess, os, tempfile
        names = list(B) + [v[0] for v in STD.values()]
        src = "#include <stdio.h>\n#include <open62541/types.h>\n#include <open62541/types_generated.h>\nint main(void){\n" + "".join(
            'printf("%s %%zu %%zu\\n", sizeof(UA_%s), _Alignof(UA_%s));\n' % (n, n, n) for n in names) + "return 0;}\n"
        with tempfile.TemporaryDirectory(prefix="nlpbt-") as d:
            open(d + "/l.c", "w").write(src)
            subprocess.run(["clang", "-w", "-I" + build.VERIF + "/shim/include", d + "/l.c", "-o", d + "/l"], check=True)
            out = subprocess.run([d + "/l"], stdout=subprocess.PIPE, text=True, check=True).stdout

        def pfree(t):
            if t.kind == "builtin":
                return t.name in PFREE
            return t.kind == "enum" or all(not a and pfree(x) for _, x, a, _ in t.own)
        pf = {n: n in PFREE for n in B}
        for i in STD:
            pf[STD[i][0]] = pfree(std(i))
        _BASE = {}
        for l in out.split("\n"):
            if l:
                n, a, b = l.split()
                _BASE[n] = (int(a), int(b), pf[n])
    return _BASE


class Layout:
    """memory layout of the C struct that the generated type describes; sizes of the library's types come from its headers"""

    def __init__(self, base):
        self.base = base        # name -> (size, align, pointerfree)
        self.memo = {}

    def of(self, t):
        """(size, align, pointer free or None, list of paddings)"""
        if id(t) in self.memo:
            return self.memo[id(t)]
        r = self._of(t)
        self.memo[id(t)] = r
        return r

    def _of(self, t):
        if t.kind == "builtin":
            return self.base[t.name] + ([],)
        if t.kind == "alias":
            return self.base[t.basename] + ([],)
        if t.kind == "none":
            return self.base["Variant"] + ([],)
        if t.kind == "enum":
            return (4, 4, True, [])
        if t.id[0] is None and t.id[2] in STD:
            return self.base[t.name] + ([],)
        ms = t.members()
        if not ms or t.optset:
            return (8, 8, None, [])
        pf, pads = True, []
        if t.kind == "union":
            al = 4
            dims = [self.memb(x) for x in ms]
            for s, a, p in dims:
                al = max(al, a)
            off = align_up(4, al)
            size = max(off + s for s, a, p in dims)
            for s, a, p in dims:
                pads.append(off)
                pf = None if p is None or pf is None else pf and p
            if any(p is False for _, _, p in dims):
                pf = False
            return (align_up(size, al), al, pf, pads)
        off, al = 0, 1
        for x in ms:
            s, a, p = self.memb(x)
            o = align_up(off, a)
            pads.append(o - off)
            off = o + s
            al = max(al, a)
            if p is False:
                pf = False
            elif p is None and pf:
                pf = None
        return (align_up(off, al), al, pf, pads)

    def memb(self, x):
        _, mt, arr, opt = x
        if arr:
            return (16, 8, False)
        if opt:
            return (8, 8, False)
        if mt.abstract:
            return self.base["Variant"]
        s, a, p, _ = self.of(mt)
        return (s, a, p)


KIND = {"Boolean": 0, "SByte": 1, "Byte": 2, "Int16": 3, "UInt16": 4, "Int32": 5, "UInt32": 6, "Int64": 7, "UInt64": 8, "Float": 9, "Double": 10, "String": 11, "DateTime": 12, "Guid": 13,
        "ByteString": 14, "XmlElement": 15, "NodeId": 16, "ExpandedNodeId": 17, "StatusCode": 18, "QualifiedName": 19, "LocalizedText": 20, "ExtensionObject": 21, "DataValue": 22, "Variant": 23,
        "DiagnosticInfo": 24, "enum": 26, "struct": 27, "opt": 28, "union": 29}


def may_overlay(t, lay):
    """can values be encoded by copying their memory?"""
    if t.kind == "enum":
        return True
    if t.kind not in ("struct", "union"):
        return KIND.get(t.basename, 99) in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 18)
    if t.kind == "union" or t.isopt():
        return False
    ms = t.members()
    return not any(arr or opt or mt.abstract or mt.kind == "none" or not may_overlay(mt, lay) for _, mt, arr, opt in ms) and lay.of(t)[0] == sum(lay.of(mt)[0] for _, mt, _, _ in ms)


def compare_types(m, dump, idx, lay, abstract_ok=True):
    """generated data types"""
    got = {}
    for t in dump["types"]:
        got.setdefault(t["id"], []).append(t)
    exp = {id_show(t.id, idx): t for t in m.types.values() if t.kind != "none"}
    maybe = {id_show(t.id, idx) for t in m.types.values() if t.kind == "none"}
    for i in got:
        if i not in exp and i not in maybe:
            yield "types", "extra data type: %s" % i
    for i, t in exp.items():
        g = got.get(i)
        if not g:
            yield "types", "missing data type: %s %s (%s) was not generated" % (t.kind, i, t.name)
            continue
        if len(g) > 1:
            yield "types", "repeated data type: %s" % i
        g = g[0]
        w = "%s %s (%s)" % (t.kind, i, t.name)
        if g["name"] != t.name:
            yield "types", "type name: of %s is %r" % (w, g["name"])
        kind = "opt" if t.isopt() and not t.optset else t.kind
        ek = KIND[t.basename] if kind == "alias" else KIND[kind]
        if g["kind"] != ek and not (t.broken and g["kind"] in (27, 28)):
            yield "types", "type kind: of %s is %d instead of %d" % (w, g["kind"], ek)
        if t.optset:
            continue
        if t.kind in ("struct", "union"):
            ee = id_show(t.enc, idx) if t.enc else M.NULLID
            if g["enc"] != ee:
                yield "types", "encoding id: of %s is %s instead of %s" % (w, g["enc"], ee)
        ms = t.members() if t.kind in ("struct", "union") else []
        if len(g["m"]) != len(ms):
            yield "types", "member count: %s has %d members instead of %d" % (w, len(g["m"]), len(ms))
            continue
        size, al, pf, pads = lay.of(t)
        for j, (e, q) in enumerate(zip(ms, g["m"])):
            nm, mt, arr, opt = e
            if q[0] != nm:
                yield "types", "member name: %d of %s is %r instead of %r" % (j, w, q[0], nm)
            et = "0;i=24" if mt.kind == "none" or mt.abstract else id_show(mt.id, idx)
            if q[1] != et and not (mt.kind == "none" and mt.id and not mt.abstract and q[1] == id_show(mt.id, idx)):
                yield "types", "member type: %r of %s is %s instead of %s" % (nm, w, q[1], et)
            if bool(q[2]) != arr or bool(q[3]) != opt:
                yield "types", "member flags: %r of %s has array %r optional %r" % (nm, w, q[2], q[3])
            if q[4] != pads[j]:
                yield "types", "padding: of member %d %r of %s is %d instead of %d" % (j, nm, w, q[4], pads[j])
        if g["size"] != size:
            yield "types", "memory size: of %s is %d instead of %d" % (w, g["size"], size)
        if pf is not None and bool(g["pf"]) != pf:
            yield "types", "pointer free: %s is %r instead of %r" % (w, g["pf"], pf)
        if g["ov"] and not may_overlay(t, lay):
            yield "types", "overlayable: %s is marked as equal in memory and encoding" % w


# ---------------------------------------------------------------- address space
ATTR_OUT = {"EventNotifier": "EventNotifier", "IsAbstract": "IsAbstract", "ValueRank": "ValueRank", "AccessLevel": "AccessLevel", "UserAccessLevel": "UserAccessLevel", "Historizing": "Historizing",
            "MinimumSamplingInterval": "MinimumSamplingInterval", "Executable": "Executable", "UserExecutable": "UserExecutable", "Symmetric": "Symmetric", "ContainsNoLoops": "ContainsNoLoops"}
UACLASS = {"Object": 1, "Variable": 2, "Method": 4, "ObjectType": 8, "VariableType": 16, "ReferenceType": 32, "DataType": 64, "View": 128}
CLASSATTRS = {c: [a for a in M.CLASS_ATTRS[c] if a != "ArrayDimensions"] for c in M.CLASSES}


def nsindex(m, dump):
    """uri -> index in the server; yields problems as second result"""
    idx, errs = {}, []
    for i, u in enumerate(dump["ns"]):
        if u in idx:
            errs.append("namespace array: %r is registered twice, %r" % (u, dump["ns"]))
        idx.setdefault(u, i)
    need = ["http://opcfoundation.org/UA/", "urn:open62541.server.application"] + [u for u in m.pre if u != "urn:open62541.server.application"]
    seen = set()
    need = [u for u in need if not (u in seen or seen.add(u))]
    if dump["ns"][:len(need)] != need:
        errs.append("namespace array: starts with %r instead of %r" % (dump["ns"][:len(need)], need))
    want = set(need)
    for f in m.files:
        want |= set(f.table)
    if set(dump["ns"]) != want:
        errs.append("namespace array: is %r, expected are %r" % (dump["ns"], sorted(want)))
    for u in want:
        idx.setdefault(u, 77777)
    return idx, errs


def exp_attr(n, a):
    e = n.attrs.get(a, M.DEFAULTS[a])
    if a in M.BOOLATTRS:
        return int(M.boolof(e))
    if a == "MinimumSamplingInterval":
        return ("D", float(e))
    return int(e)


def compare_nodes(m, dump, idx, exts=False, nodes=None):
    """(categories, message): attrs, values, nodes, ext"""
    exp = {}
    for n in (nodes or m.nodes):
        exp.setdefault(id_show(n.id, idx), n)
    got = {}
    for d in dump["nodes"]:
        if d["id"] in got:
            yield "nodes", "repeated node: %s" % d["id"]
        got[d["id"]] = d
    for i in got:
        if i not in exp:
            yield "nodes", "extra node: %s is in the server but not in the nodeset" % i
    for i in dump["baseChanged"]:
        yield "nodes", "standard node changed: %s" % i
    for i, n in exp.items():
        d = got.get(i)
        if d is None:
            yield "nodes", "missing node: %s %s is not in the server" % (n.cls, i)
            continue
        w = "%s %s" % (n.cls, i)
        if d["c"] != UACLASS[n.cls]:
            yield "nodes", "class: %s has node class %d" % (w, d["c"])
            continue
        ebn = (0 if n.bn[0] is None else idx[n.bn[0]], n.bn[1])
        if d["bns"] != ebn[0]:
            yield "attrs,ns", "browse name namespace: of %s is %r instead of %r" % (w, d["bns"], ebn[0])
        if d["bn"] != ebn[1]:
            yield "attrs", "browse name: of %s is %r instead of %r" % (w, d["bn"], ebn[1])
        at = dict((k.replace(" ", ""), v) for k, v in d["attr"])
        for k, e in (("DisplayName", n.dn), ("Description", n.desc)) + ((("InverseName", n.inv),) if n.cls == "ReferenceType" else ()):
            el, et = e if e else (None, None)
            g = at[k]
            ok = nt(g[0]) == nt(el) and nt(g[1]) == nt(et)
            if not ok and k == "DisplayName" and e is None and nt(g[1]) == n.bn[1]:
                ok = True
            if not ok:
                yield "attrs", "text: %s of %s is %s instead of %s" % (k, w, M.short(g), M.short([el, et]))
        for a in CLASSATTRS[n.cls]:
            e = exp_attr(n, a)
            if not same(e, at[a], idx):
                yield "attrs", "attribute: %s of %s is %r instead of %r" % (a, w, at[a], e)
        if n.cls in ("Variable", "VariableType"):
            e = id_show(n.attrs.get("DataType", nid(24)), idx)
            if at["DataType"] != e:
                yield "attrs,ns", "data type: of %s is %s instead of %s" % (w, at["DataType"], e)
            if n.attrs.get("ArrayDimensions"):
                e = [int(x) for x in n.attrs["ArrayDimensions"].split(",")]
                if at["ArrayDimensions"] != e:
                    yield "attrs", "array dimensions: of %s are %r instead of %r" % (w, at["ArrayDimensions"], e)
            elif n.cls == "Variable" and at["ArrayDimensions"] and n.attrs.get("ValueRank") != "1" and not n.value:
                yield "attrs", "array dimensions: of %s are %r, none are stated" % (w, at["ArrayDimensions"])
        if n.cls == "Variable":
            yield from compare_value(m, n, at["Value"], w, idx)
        if exts and (d["ext"] != -1) != bool(n.exts):
            yield "ext", "node context: of %s is %r" % (w, d["ext"])


def compare_value(m, n, g, w, idx):
    if n.value is None:
        if g is not None:
            yield "values", "value: %s has the value %s although the file states none" % (w, M.short(g))
        return
    if "val" not in n.xtra:
        return
    t, arr, e = n.xtra["val"]
    cat = "values,cvalues" if t.kind in ("struct", "union", "enum") else "values,bvalues"
    if g is None:
        yield cat, "value: of %s (%s) is missing, expected %s" % (w, t.name, M.short(e))
        return
    if bool(g["arr"]) != arr:
        yield cat, "value: of %s is %s" % (w, "scalar" if arr else "an array")
        return
    if g["t"] not in (id_show(t.id, idx), id_show(n.attrs["DataType"], idx)):
        yield cat, "value type: of %s is %s (%s) instead of %s" % (w, g["t"], g["tn"], id_show(t.id, idx))
        return
    if arr and g["len"] != len(e):
        yield cat, "array length: of %s is %d instead of %d" % (w, g["len"], len(e))
        return
    if not same(e, g["v"], idx):
        d = first_diff(e, g["v"], idx)
        yield cat, "value: of %s (%s) differs: %s" % (w, t.name, d)
        if nsdiff(e, g["v"], idx):
            yield "nsvalues", "value namespace: of %s (%s) differs: %s" % (w, t.name, d)


def first_diff(e, g, idx, path=""):
    if isinstance(e, list) and isinstance(g, list) and len(e) == len(g):
        for i, (a, b) in enumerate(zip(e, g)):
            if not same(a, b, idx):
                return first_diff(a, b, idx, path + "/%d" % i)
    if isinstance(e, dict) and isinstance(g, dict) and set(e) == set(g):
        for k in e:
            if not same(e[k], g[k], idx):
                return first_diff(e[k], g[k], idx, path + "/" + k)
    if isinstance(e, Id):
        e = id_show(e.i, idx)
    if isinstance(e, Ns):
        e = idx[e.uri] if e.uri else 0
    return "%s is %s instead of %s" % (path or "value", M.short(g, 150), M.short(e, 150))


def nsdiff(e, g, idx):
    """is there a difference in a namespace index?"""
    if isinstance(e, (Id, Ns)):
        return not same(e, g, idx)
    if isinstance(e, list) and isinstance(g, list) and len(e) == len(g):
        return any(nsdiff(a, b, idx) for a, b in zip(e, g))
    if isinstance(e, dict) and isinstance(g, dict) and set(e) == set(g):
        return any(nsdiff(e[k], g[k], idx) for k in e)
    return False


def exp_references(m, idx, nodes=None):
    """(set of required forward references, list of sets of alternatives)"""
    need, alts, opt = set(), [], set()
    byid = {n.id: n for n in m.nodes}

    def add(fw, s, t, tg):
        a, b = id_show(s, idx), id_show(tg, idx)
        need.add((a, id_show(t, idx), b) if fw else (b, id_show(t, idx), a))
    for n in (nodes or m.nodes):
        for fw, t, tg in n.refs:
            add(fw, n.id, t, tg)
        if n.cls in ("Object", "Variable"):
            add(True, n.id, nid(40), n.td or nid(58 if n.cls == "Object" else 63))
            if "tdtype" in n.xtra:      # the server has only one type for it
                opt.add((id_show(n.id, idx), id_show(n.xtra["tdtype"], idx), id_show(n.td, idx)))
        pr = M.parent_ref(m, n, byid, idx)
        if pr is not None:
            me = id_show(n.id, idx)
            alts.append({(x[2], x[1], me) for x in pr})
    return need, alts, opt


def server_references(dump):
    """forward references of the dump, and problems"""
    fwd, inv, errs, seen = set(), set(), [], set()
    def one(i, f, t, tg):
        if (i, f, t, tg) in seen:
            errs.append("repeated reference: %r" % ((i, f, t, tg),))
        seen.add((i, f, t, tg))
        (fwd if f else inv).add((i, t, tg) if f else (tg, t, i))
    for d in dump["nodes"]:
        for f, t, tg in d["refs"]:
            one(d["id"], f, t, tg)
    for i, f, t, tg in dump["baseRefs"]:
        one(i, f, t, tg)
    for x in sorted(fwd - inv)[:3]:
        errs.append("one-sided reference: %r is not visible from its target" % (x,))
    for x in sorted(inv - fwd)[:3]:
        errs.append("one-sided reference: %r is not visible from its source" % (x,))
    return fwd | inv, errs


def compare_refs(m, dump, idx, nodes=None):
    got, errs = server_references(dump)
    for e in errs:
        yield "refs", e
    need, alts, opt = exp_references(m, idx, nodes)
    for x in sorted(need - got)[:5]:
        yield "refs", "missing reference: %r" % (x,)
    allowed = need | opt
    for a in alts:
        if not a & got:
            yield "refs", "missing parent reference: one of %r" % (sorted(a),)
        allowed |= a
    for x in sorted(got - allowed)[:5]:
        yield "refs", "additional reference: %r" % (x,)


def compare_server(m, dump, lay, exts=False, nodes=None):
    idx, errs = nsindex(m, dump)
    for e in errs:
        yield "ns", e
    yield from compare_nodes(m, dump, idx, exts, nodes)
    yield from compare_refs(m, dump, idx, nodes)
    yield from compare_types(m, dump, idx, lay)
