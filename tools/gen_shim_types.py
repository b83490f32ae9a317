#!/usr/bin/env python3
"""Development-time generator for the stand-in's types_generated.h / ua_types_generated.inc."""
builtin = [("Boolean",1),("SByte",2),("Byte",3),("Int16",4),("UInt16",5),("Int32",6),("UInt32",7),("Int64",8),("UInt64",9),("Float",10),("Double",11),
 ("String",12),("DateTime",13),("Guid",14),("ByteString",15),("XmlElement",16),("NodeId",17),("ExpandedNodeId",18),("StatusCode",19),("QualifiedName",20),
 ("LocalizedText",21),("ExtensionObject",22),("DataValue",23),("Variant",24),("DiagnosticInfo",25)]
ptrfree = {"Boolean","SByte","Byte","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float","Double","DateTime","Guid","StatusCode"}
kinds = {n:i for i,(n,_) in enumerate(builtin)}
enums = [("NodeClass",257),("ServerState",852),("AxisScaleEnumeration",12077),("ApplicationType",307),("BrowseDirection",510),("MessageSecurityMode",302),("StructureType",98),("RedundancySupport",851)]
# name, id, binary encoding id, [(member, type, isArray)]
structs = [
 ("Argument",296,298,[("name","String",0),("dataType","NodeId",0),("valueRank","Int32",0),("arrayDimensions","UInt32",1),("description","LocalizedText",0)]),
 ("EUInformation",887,889,[("namespaceUri","String",0),("unitId","Int32",0),("displayName","LocalizedText",0),("description","LocalizedText",0)]),
 ("Range",884,886,[("low","Double",0),("high","Double",0)]),
 ("EnumValueType",7594,8251,[("value","Int64",0),("displayName","LocalizedText",0),("description","LocalizedText",0)]),
 ("TimeZoneDataType",8912,8917,[("offset","Int16",0),("daylightSavingInOffset","Boolean",0)]),
 ("RolePermissionType",96,128,[("roleId","NodeId",0),("permissions","UInt32",0)]),
 ("XVType",12080,12090,[("x","Double",0),("value","Float",0)]),
 ("ComplexNumberType",12171,12181,[("real","Float",0),("imaginary","Float",0)]),
 ("DoubleComplexNumberType",12172,12182,[("real","Double",0),("imaginary","Double",0)]),
 ("AxisInformation",12079,12089,[("engineeringUnits","EUInformation",0),("eURange","Range",0),("title","LocalizedText",0),("axisScaleType","AxisScaleEnumeration",0),("axisSteps","Double",1)]),
 ("BuildInfo",338,340,[("productUri","String",0),("manufacturerName","String",0),("productName","String",0),("softwareVersion","String",0),("buildNumber","String",0),("buildDate","DateTime",0)]),
 ("ServerStatusDataType",862,864,[("startTime","DateTime",0),("currentTime","DateTime",0),("state","ServerState",0),("buildInfo","BuildInfo",0),("secondsTillShutdown","UInt32",0),("shutdownReason","LocalizedText",0)]),
 ("BrowseDescription",514,516,[("nodeId","NodeId",0),("browseDirection","BrowseDirection",0),("referenceTypeId","NodeId",0),("includeSubtypes","Boolean",0),("nodeClassMask","UInt32",0),("resultMask","UInt32",0)]),
 ("ReferenceDescription",518,520,[("referenceTypeId","NodeId",0),("isForward","Boolean",0),("nodeId","ExpandedNodeId",0),("browseName","QualifiedName",0),("displayName","LocalizedText",0),("nodeClass","NodeClass",0),("typeDefinition","ExpandedNodeId",0)]),
 ("BrowseResult",522,524,[("statusCode","StatusCode",0),("continuationPoint","ByteString",0),("references","ReferenceDescription",1)]),
 ("ObjectAttributes",352,354,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("eventNotifier","Byte",0)]),
 ("VariableAttributes",355,357,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("value","Variant",0),("dataType","NodeId",0),("valueRank","Int32",0),("arrayDimensions","UInt32",1),("accessLevel","Byte",0),("userAccessLevel","Byte",0),("minimumSamplingInterval","Double",0),("historizing","Boolean",0)]),
 ("MethodAttributes",358,360,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("executable","Boolean",0),("userExecutable","Boolean",0)]),
 ("ObjectTypeAttributes",361,363,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("isAbstract","Boolean",0)]),
 ("VariableTypeAttributes",364,366,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("value","Variant",0),("dataType","NodeId",0),("valueRank","Int32",0),("arrayDimensions","UInt32",1),("isAbstract","Boolean",0)]),
 ("ReferenceTypeAttributes",367,369,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("isAbstract","Boolean",0),("symmetric","Boolean",0),("inverseName","LocalizedText",0)]),
 ("DataTypeAttributes",370,372,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("isAbstract","Boolean",0)]),
 ("ViewAttributes",373,375,[("specifiedAttributes","UInt32",0),("displayName","LocalizedText",0),("description","LocalizedText",0),("writeMask","UInt32",0),("userWriteMask","UInt32",0),("containsNoLoops","Boolean",0),("eventNotifier","Byte",0)]),
]
names = [b[0] for b in builtin] + [e[0] for e in enums] + [s[0] for s in structs]
pf = set(ptrfree) | {e[0] for e in enums}
for n,i,b,ms in structs:
    if all((not a) and t in pf for _,t,a in ms): pf.add(n)
H = ['/* generated by tools/gen_shim_types.py */','#ifndef SHIM_UA_TYPES_GENERATED_H','#define SHIM_UA_TYPES_GENERATED_H','#include "types.h"','_UA_BEGIN_DECLS',
 'typedef enum { UA_NODECLASS_UNSPECIFIED=0, UA_NODECLASS_OBJECT=1, UA_NODECLASS_VARIABLE=2, UA_NODECLASS_METHOD=4, UA_NODECLASS_OBJECTTYPE=8, UA_NODECLASS_VARIABLETYPE=16, UA_NODECLASS_REFERENCETYPE=32, UA_NODECLASS_DATATYPE=64, UA_NODECLASS_VIEW=128, __UA_NODECLASS_FORCE32BIT=0x7fffffff } UA_NodeClass;',
 'typedef enum { UA_BROWSEDIRECTION_FORWARD=0, UA_BROWSEDIRECTION_INVERSE=1, UA_BROWSEDIRECTION_BOTH=2, UA_BROWSEDIRECTION_INVALID=3, __UA_BROWSEDIRECTION_FORCE32BIT=0x7fffffff } UA_BrowseDirection;',
 'typedef enum { UA_BROWSERESULTMASK_NONE=0, UA_BROWSERESULTMASK_REFERENCETYPEID=1, UA_BROWSERESULTMASK_ISFORWARD=2, UA_BROWSERESULTMASK_NODECLASS=4, UA_BROWSERESULTMASK_BROWSENAME=8, UA_BROWSERESULTMASK_DISPLAYNAME=16, UA_BROWSERESULTMASK_TYPEDEFINITION=32, UA_BROWSERESULTMASK_ALL=63 } UA_BrowseResultMask;']
for e,_ in enums:
    if e not in ("NodeClass","BrowseDirection"): H.append('typedef enum { UA_%s_FIRST=0, __UA_%s_FORCE32BIT=0x7fffffff } UA_%s;' % (e.upper(),e.upper(),e))
for n,i,b,ms in structs:
    H.append('typedef struct {')
    for m,t,a in ms:
        H.append('    size_t %sSize; UA_%s *%s;' % (m,t,m) if a else '    UA_%s %s;' % (t,m))
    H.append('} UA_%s;' % n)
H.append('#define UA_TYPES_COUNT %d' % len(names))
H.append('extern UA_DataType UA_TYPES[UA_TYPES_COUNT];')
for k,n in enumerate(names): H.append('#define UA_TYPES_%s %d' % (n.upper(),k))
for n in names:
    H.append('''static inline void UA_{n}_init(UA_{n} *p) {{ memset(p, 0, sizeof(UA_{n})); }}
static inline UA_{n} *UA_{n}_new(void) {{ return (UA_{n} *)UA_new(&UA_TYPES[UA_TYPES_{N}]); }}
static inline UA_StatusCode UA_{n}_copy(const UA_{n} *src, UA_{n} *dst) {{ return UA_copy(src, dst, &UA_TYPES[UA_TYPES_{N}]); }}
static inline void UA_{n}_clear(UA_{n} *p) {{ UA_clear(p, &UA_TYPES[UA_TYPES_{N}]); }}
static inline void UA_{n}_delete(UA_{n} *p) {{ UA_delete(p, &UA_TYPES[UA_TYPES_{N}]); }}
static inline UA_Boolean UA_{n}_equal(const UA_{n} *a, const UA_{n} *b) {{ return UA_order(a, b, &UA_TYPES[UA_TYPES_{N}]) == UA_ORDER_EQ; }}'''.format(n=n,N=n.upper()))
for n in ["Object","Variable","Method","ObjectType","VariableType","ReferenceType","DataType","View"]:
    H.append('extern const UA_%sAttributes UA_%sAttributes_default;' % (n,n))
H += ['_UA_END_DECLS','#endif']
open('/verif/shim/include/open62541/types_generated.h','w').write('\n'.join(H)+'\n')
C = ['/* generated by tools/gen_shim_types.py */']
for n,i,b,ms in structs:
    C.append('static UA_DataTypeMember %s_members[] = {' % n)
    prev = None
    for m,t,a in ms:
        first = 'offsetof(UA_%s, %s)' % (n, m+'Size' if a else m)
        pad = first + (' - (%s)' % prev if prev else '')
        pub = m[0].upper()+m[1:]
        C.append('  {"%s", &UA_TYPES[UA_TYPES_%s], (UA_Byte)(%s), %d, 0},' % (pub,t.upper(),pad,a))
        prev = 'offsetof(UA_%s, %s) + sizeof(((UA_%s*)0)->%s)' % (n,m,n,m)
    C.append('};')
C.append('UA_DataType UA_TYPES[UA_TYPES_COUNT] = {')
for n,i in builtin:
    C.append('{"%s",{0,UA_NODEIDTYPE_NUMERIC,{%d}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_%s),%d,%d,%d,0,NULL},' % (n,i,n,kinds[n],n in ptrfree, n in ("Boolean","SByte","Byte","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float","Double","DateTime","StatusCode")))
for n,i in enums:
    C.append('{"%s",{0,UA_NODEIDTYPE_NUMERIC,{%d}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_%s),UA_DATATYPEKIND_ENUM,1,1,0,NULL},' % (n,i,n))
for n,i,b,ms in structs:
    C.append('{"%s",{0,UA_NODEIDTYPE_NUMERIC,{%d}},{0,UA_NODEIDTYPE_NUMERIC,{%d}},sizeof(UA_%s),UA_DATATYPEKIND_STRUCTURE,%d,0,%d,%s_members},' % (n,i,b,n,n in pf,len(ms),n))
C.append('};')
open('/verif/shim/src/ua_types_generated.inc','w').write('\n'.join(C)+'\n')
