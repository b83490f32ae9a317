/* generated by tools/gen_shim_types.py */
#ifndef SHIM_UA_TYPES_GENERATED_H
#define SHIM_UA_TYPES_GENERATED_H
#include "types.h"
_UA_BEGIN_DECLS
typedef enum { UA_NODECLASS_UNSPECIFIED=0, UA_NODECLASS_OBJECT=1, UA_NODECLASS_VARIABLE=2, UA_NODECLASS_METHOD=4, UA_NODECLASS_OBJECTTYPE=8, UA_NODECLASS_VARIABLETYPE=16, UA_NODECLASS_REFERENCETYPE=32, UA_NODECLASS_DATATYPE=64, UA_NODECLASS_VIEW=128, __UA_NODECLASS_FORCE32BIT=0x7fffffff } UA_NodeClass;
typedef enum { UA_BROWSEDIRECTION_FORWARD=0, UA_BROWSEDIRECTION_INVERSE=1, UA_BROWSEDIRECTION_BOTH=2, UA_BROWSEDIRECTION_INVALID=3, __UA_BROWSEDIRECTION_FORCE32BIT=0x7fffffff } UA_BrowseDirection;
typedef enum { UA_BROWSERESULTMASK_NONE=0, UA_BROWSERESULTMASK_REFERENCETYPEID=1, UA_BROWSERESULTMASK_ISFORWARD=2, UA_BROWSERESULTMASK_NODECLASS=4, UA_BROWSERESULTMASK_BROWSENAME=8, UA_BROWSERESULTMASK_DISPLAYNAME=16, UA_BROWSERESULTMASK_TYPEDEFINITION=32, UA_BROWSERESULTMASK_ALL=63 } UA_BrowseResultMask;
typedef enum { UA_SERVERSTATE_FIRST=0, __UA_SERVERSTATE_FORCE32BIT=0x7fffffff } UA_ServerState;
typedef enum { UA_AXISSCALEENUMERATION_FIRST=0, __UA_AXISSCALEENUMERATION_FORCE32BIT=0x7fffffff } UA_AxisScaleEnumeration;
typedef enum { UA_APPLICATIONTYPE_FIRST=0, __UA_APPLICATIONTYPE_FORCE32BIT=0x7fffffff } UA_ApplicationType;
typedef enum { UA_MESSAGESECURITYMODE_FIRST=0, __UA_MESSAGESECURITYMODE_FORCE32BIT=0x7fffffff } UA_MessageSecurityMode;
typedef enum { UA_STRUCTURETYPE_FIRST=0, __UA_STRUCTURETYPE_FORCE32BIT=0x7fffffff } UA_StructureType;
typedef enum { UA_REDUNDANCYSUPPORT_FIRST=0, __UA_REDUNDANCYSUPPORT_FORCE32BIT=0x7fffffff } UA_RedundancySupport;
typedef struct {
    UA_String name;
    UA_NodeId dataType;
    UA_Int32 valueRank;
    size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_LocalizedText description;
} UA_Argument;
typedef struct {
    UA_String namespaceUri;
    UA_Int32 unitId;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
} UA_EUInformation;
typedef struct {
    UA_Double low;
    UA_Double high;
} UA_Range;
typedef struct {
    UA_Int64 value;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
} UA_EnumValueType;
typedef struct {
    UA_Int16 offset;
    UA_Boolean daylightSavingInOffset;
} UA_TimeZoneDataType;
typedef struct {
    UA_NodeId roleId;
    UA_UInt32 permissions;
} UA_RolePermissionType;
typedef struct {
    UA_Double x;
    UA_Float value;
} UA_XVType;
typedef struct {
    UA_Float real;
    UA_Float imaginary;
} UA_ComplexNumberType;
typedef struct {
    UA_Double real;
    UA_Double imaginary;
} UA_DoubleComplexNumberType;
typedef struct {
    UA_EUInformation engineeringUnits;
    UA_Range eURange;
    UA_LocalizedText title;
    UA_AxisScaleEnumeration axisScaleType;
    size_t axisStepsSize; UA_Double *axisSteps;
} UA_AxisInformation;
typedef struct {
    UA_String productUri;
    UA_String manufacturerName;
    UA_String productName;
    UA_String softwareVersion;
    UA_String buildNumber;
    UA_DateTime buildDate;
} UA_BuildInfo;
typedef struct {
    UA_DateTime startTime;
    UA_DateTime currentTime;
    UA_ServerState state;
    UA_BuildInfo buildInfo;
    UA_UInt32 secondsTillShutdown;
    UA_LocalizedText shutdownReason;
} UA_ServerStatusDataType;
typedef struct {
    UA_NodeId nodeId;
    UA_BrowseDirection browseDirection;
    UA_NodeId referenceTypeId;
    UA_Boolean includeSubtypes;
    UA_UInt32 nodeClassMask;
    UA_UInt32 resultMask;
} UA_BrowseDescription;
typedef struct {
    UA_NodeId referenceTypeId;
    UA_Boolean isForward;
    UA_ExpandedNodeId nodeId;
    UA_QualifiedName browseName;
    UA_LocalizedText displayName;
    UA_NodeClass nodeClass;
    UA_ExpandedNodeId typeDefinition;
} UA_ReferenceDescription;
typedef struct {
    UA_StatusCode statusCode;
    UA_ByteString continuationPoint;
    size_t referencesSize; UA_ReferenceDescription *references;
} UA_BrowseResult;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Byte eventNotifier;
} UA_ObjectAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Variant value;
    UA_NodeId dataType;
    UA_Int32 valueRank;
    size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Byte accessLevel;
    UA_Byte userAccessLevel;
    UA_Double minimumSamplingInterval;
    UA_Boolean historizing;
} UA_VariableAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Boolean executable;
    UA_Boolean userExecutable;
} UA_MethodAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Boolean isAbstract;
} UA_ObjectTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Variant value;
    UA_NodeId dataType;
    UA_Int32 valueRank;
    size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Boolean isAbstract;
} UA_VariableTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Boolean isAbstract;
    UA_Boolean symmetric;
    UA_LocalizedText inverseName;
} UA_ReferenceTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Boolean isAbstract;
} UA_DataTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes;
    UA_LocalizedText displayName;
    UA_LocalizedText description;
    UA_UInt32 writeMask;
    UA_UInt32 userWriteMask;
    UA_Boolean containsNoLoops;
    UA_Byte eventNotifier;
} UA_ViewAttributes;
#define UA_TYPES_COUNT 56
extern UA_DataType UA_TYPES[UA_TYPES_COUNT];
#define UA_TYPES_BOOLEAN 0
#define UA_TYPES_SBYTE 1
#define UA_TYPES_BYTE 2
#define UA_TYPES_INT16 3
#define UA_TYPES_UINT16 4
#define UA_TYPES_INT32 5
#define UA_TYPES_UINT32 6
#define UA_TYPES_INT64 7
#define UA_TYPES_UINT64 8
#define UA_TYPES_FLOAT 9
#define UA_TYPES_DOUBLE 10
#define UA_TYPES_STRING 11
#define UA_TYPES_DATETIME 12
#define UA_TYPES_GUID 13
#define UA_TYPES_BYTESTRING 14
#define UA_TYPES_XMLELEMENT 15
#define UA_TYPES_NODEID 16
#define UA_TYPES_EXPANDEDNODEID 17
#define UA_TYPES_STATUSCODE 18
#define UA_TYPES_QUALIFIEDNAME 19
#define UA_TYPES_LOCALIZEDTEXT 20
#define UA_TYPES_EXTENSIONOBJECT 21
#define UA_TYPES_DATAVALUE 22
#define UA_TYPES_VARIANT 23
#define UA_TYPES_DIAGNOSTICINFO 24
#define UA_TYPES_NODECLASS 25
#define UA_TYPES_SERVERSTATE 26
#define UA_TYPES_AXISSCALEENUMERATION 27
#define UA_TYPES_APPLICATIONTYPE 28
#define UA_TYPES_BROWSEDIRECTION 29
#define UA_TYPES_MESSAGESECURITYMODE 30
#define UA_TYPES_STRUCTURETYPE 31
#define UA_TYPES_REDUNDANCYSUPPORT 32
#define UA_TYPES_ARGUMENT 33
#define UA_TYPES_EUINFORMATION 34
#define UA_TYPES_RANGE 35
#define UA_TYPES_ENUMVALUETYPE 36
#define UA_TYPES_TIMEZONEDATATYPE 37
#define UA_TYPES_ROLEPERMISSIONTYPE 38
#define UA_TYPES_XVTYPE 39
#define UA_TYPES_COMPLEXNUMBERTYPE 40
#define UA_TYPES_DOUBLECOMPLEXNUMBERTYPE 41
#define UA_TYPES_AXISINFORMATION 42
#define UA_TYPES_BUILDINFO 43
#define UA_TYPES_SERVERSTATUSDATATYPE 44
#define UA_TYPES_BROWSEDESCRIPTION 45
#define UA_TYPES_REFERENCEDESCRIPTION 46
#define UA_TYPES_BROWSERESULT 47
#define UA_TYPES_OBJECTATTRIBUTES 48
#define UA_TYPES_VARIABLEATTRIBUTES 49
#define UA_TYPES_METHODATTRIBUTES 50
#define UA_TYPES_OBJECTTYPEATTRIBUTES 51
#define UA_TYPES_VARIABLETYPEATTRIBUTES 52
#define UA_TYPES_REFERENCETYPEATTRIBUTES 53
#define UA_TYPES_DATATYPEATTRIBUTES 54
#define UA_TYPES_VIEWATTRIBUTES 55
static inline void UA_Boolean_init(UA_Boolean *p) { memset(p, 0, sizeof(UA_Boolean)); }
static inline UA_Boolean *UA_Boolean_new(void) { return (UA_Boolean *)UA_new(&UA_TYPES[UA_TYPES_BOOLEAN]); }
static inline UA_StatusCode UA_Boolean_copy(const UA_Boolean *src, UA_Boolean *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BOOLEAN]); }
static inline void UA_Boolean_clear(UA_Boolean *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BOOLEAN]); }
static inline void UA_Boolean_delete(UA_Boolean *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BOOLEAN]); }
static inline UA_Boolean UA_Boolean_equal(const UA_Boolean *a, const UA_Boolean *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BOOLEAN]) == UA_ORDER_EQ; }
static inline void UA_SByte_init(UA_SByte *p) { memset(p, 0, sizeof(UA_SByte)); }
static inline UA_SByte *UA_SByte_new(void) { return (UA_SByte *)UA_new(&UA_TYPES[UA_TYPES_SBYTE]); }
static inline UA_StatusCode UA_SByte_copy(const UA_SByte *src, UA_SByte *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_SBYTE]); }
static inline void UA_SByte_clear(UA_SByte *p) { UA_clear(p, &UA_TYPES[UA_TYPES_SBYTE]); }
static inline void UA_SByte_delete(UA_SByte *p) { UA_delete(p, &UA_TYPES[UA_TYPES_SBYTE]); }
static inline UA_Boolean UA_SByte_equal(const UA_SByte *a, const UA_SByte *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_SBYTE]) == UA_ORDER_EQ; }
static inline void UA_Byte_init(UA_Byte *p) { memset(p, 0, sizeof(UA_Byte)); }
static inline UA_Byte *UA_Byte_new(void) { return (UA_Byte *)UA_new(&UA_TYPES[UA_TYPES_BYTE]); }
static inline UA_StatusCode UA_Byte_copy(const UA_Byte *src, UA_Byte *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BYTE]); }
static inline void UA_Byte_clear(UA_Byte *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BYTE]); }
static inline void UA_Byte_delete(UA_Byte *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BYTE]); }
static inline UA_Boolean UA_Byte_equal(const UA_Byte *a, const UA_Byte *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BYTE]) == UA_ORDER_EQ; }
static inline void UA_Int16_init(UA_Int16 *p) { memset(p, 0, sizeof(UA_Int16)); }
static inline UA_Int16 *UA_Int16_new(void) { return (UA_Int16 *)UA_new(&UA_TYPES[UA_TYPES_INT16]); }
static inline UA_StatusCode UA_Int16_copy(const UA_Int16 *src, UA_Int16 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_INT16]); }
static inline void UA_Int16_clear(UA_Int16 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_INT16]); }
static inline void UA_Int16_delete(UA_Int16 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_INT16]); }
static inline UA_Boolean UA_Int16_equal(const UA_Int16 *a, const UA_Int16 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_INT16]) == UA_ORDER_EQ; }
static inline void UA_UInt16_init(UA_UInt16 *p) { memset(p, 0, sizeof(UA_UInt16)); }
static inline UA_UInt16 *UA_UInt16_new(void) { return (UA_UInt16 *)UA_new(&UA_TYPES[UA_TYPES_UINT16]); }
static inline UA_StatusCode UA_UInt16_copy(const UA_UInt16 *src, UA_UInt16 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_UINT16]); }
static inline void UA_UInt16_clear(UA_UInt16 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_UINT16]); }
static inline void UA_UInt16_delete(UA_UInt16 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_UINT16]); }
static inline UA_Boolean UA_UInt16_equal(const UA_UInt16 *a, const UA_UInt16 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_UINT16]) == UA_ORDER_EQ; }
static inline void UA_Int32_init(UA_Int32 *p) { memset(p, 0, sizeof(UA_Int32)); }
static inline UA_Int32 *UA_Int32_new(void) { return (UA_Int32 *)UA_new(&UA_TYPES[UA_TYPES_INT32]); }
static inline UA_StatusCode UA_Int32_copy(const UA_Int32 *src, UA_Int32 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_INT32]); }
static inline void UA_Int32_clear(UA_Int32 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_INT32]); }
static inline void UA_Int32_delete(UA_Int32 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_INT32]); }
static inline UA_Boolean UA_Int32_equal(const UA_Int32 *a, const UA_Int32 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_INT32]) == UA_ORDER_EQ; }
static inline void UA_UInt32_init(UA_UInt32 *p) { memset(p, 0, sizeof(UA_UInt32)); }
static inline UA_UInt32 *UA_UInt32_new(void) { return (UA_UInt32 *)UA_new(&UA_TYPES[UA_TYPES_UINT32]); }
static inline UA_StatusCode UA_UInt32_copy(const UA_UInt32 *src, UA_UInt32 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_UINT32]); }
static inline void UA_UInt32_clear(UA_UInt32 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_UINT32]); }
static inline void UA_UInt32_delete(UA_UInt32 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_UINT32]); }
static inline UA_Boolean UA_UInt32_equal(const UA_UInt32 *a, const UA_UInt32 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_UINT32]) == UA_ORDER_EQ; }
static inline void UA_Int64_init(UA_Int64 *p) { memset(p, 0, sizeof(UA_Int64)); }
static inline UA_Int64 *UA_Int64_new(void) { return (UA_Int64 *)UA_new(&UA_TYPES[UA_TYPES_INT64]); }
static inline UA_StatusCode UA_Int64_copy(const UA_Int64 *src, UA_Int64 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_INT64]); }
static inline void UA_Int64_clear(UA_Int64 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_INT64]); }
static inline void UA_Int64_delete(UA_Int64 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_INT64]); }
static inline UA_Boolean UA_Int64_equal(const UA_Int64 *a, const UA_Int64 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_INT64]) == UA_ORDER_EQ; }
static inline void UA_UInt64_init(UA_UInt64 *p) { memset(p, 0, sizeof(UA_UInt64)); }
static inline UA_UInt64 *UA_UInt64_new(void) { return (UA_UInt64 *)UA_new(&UA_TYPES[UA_TYPES_UINT64]); }
static inline UA_StatusCode UA_UInt64_copy(const UA_UInt64 *src, UA_UInt64 *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_UINT64]); }
static inline void UA_UInt64_clear(UA_UInt64 *p) { UA_clear(p, &UA_TYPES[UA_TYPES_UINT64]); }
static inline void UA_UInt64_delete(UA_UInt64 *p) { UA_delete(p, &UA_TYPES[UA_TYPES_UINT64]); }
static inline UA_Boolean UA_UInt64_equal(const UA_UInt64 *a, const UA_UInt64 *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_UINT64]) == UA_ORDER_EQ; }
static inline void UA_Float_init(UA_Float *p) { memset(p, 0, sizeof(UA_Float)); }
static inline UA_Float *UA_Float_new(void) { return (UA_Float *)UA_new(&UA_TYPES[UA_TYPES_FLOAT]); }
static inline UA_StatusCode UA_Float_copy(const UA_Float *src, UA_Float *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_FLOAT]); }
static inline void UA_Float_clear(UA_Float *p) { UA_clear(p, &UA_TYPES[UA_TYPES_FLOAT]); }
static inline void UA_Float_delete(UA_Float *p) { UA_delete(p, &UA_TYPES[UA_TYPES_FLOAT]); }
static inline UA_Boolean UA_Float_equal(const UA_Float *a, const UA_Float *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_FLOAT]) == UA_ORDER_EQ; }
static inline void UA_Double_init(UA_Double *p) { memset(p, 0, sizeof(UA_Double)); }
static inline UA_Double *UA_Double_new(void) { return (UA_Double *)UA_new(&UA_TYPES[UA_TYPES_DOUBLE]); }
static inline UA_StatusCode UA_Double_copy(const UA_Double *src, UA_Double *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DOUBLE]); }
static inline void UA_Double_clear(UA_Double *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DOUBLE]); }
static inline void UA_Double_delete(UA_Double *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DOUBLE]); }
static inline UA_Boolean UA_Double_equal(const UA_Double *a, const UA_Double *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DOUBLE]) == UA_ORDER_EQ; }
static inline void UA_String_init(UA_String *p) { memset(p, 0, sizeof(UA_String)); }
static inline UA_String *UA_String_new(void) { return (UA_String *)UA_new(&UA_TYPES[UA_TYPES_STRING]); }
static inline UA_StatusCode UA_String_copy(const UA_String *src, UA_String *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_STRING]); }
static inline void UA_String_clear(UA_String *p) { UA_clear(p, &UA_TYPES[UA_TYPES_STRING]); }
static inline void UA_String_delete(UA_String *p) { UA_delete(p, &UA_TYPES[UA_TYPES_STRING]); }
static inline UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_STRING]) == UA_ORDER_EQ; }
static inline void UA_DateTime_init(UA_DateTime *p) { memset(p, 0, sizeof(UA_DateTime)); }
static inline UA_DateTime *UA_DateTime_new(void) { return (UA_DateTime *)UA_new(&UA_TYPES[UA_TYPES_DATETIME]); }
static inline UA_StatusCode UA_DateTime_copy(const UA_DateTime *src, UA_DateTime *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DATETIME]); }
static inline void UA_DateTime_clear(UA_DateTime *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DATETIME]); }
static inline void UA_DateTime_delete(UA_DateTime *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DATETIME]); }
static inline UA_Boolean UA_DateTime_equal(const UA_DateTime *a, const UA_DateTime *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DATETIME]) == UA_ORDER_EQ; }
static inline void UA_Guid_init(UA_Guid *p) { memset(p, 0, sizeof(UA_Guid)); }
static inline UA_Guid *UA_Guid_new(void) { return (UA_Guid *)UA_new(&UA_TYPES[UA_TYPES_GUID]); }
static inline UA_StatusCode UA_Guid_copy(const UA_Guid *src, UA_Guid *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_GUID]); }
static inline void UA_Guid_clear(UA_Guid *p) { UA_clear(p, &UA_TYPES[UA_TYPES_GUID]); }
static inline void UA_Guid_delete(UA_Guid *p) { UA_delete(p, &UA_TYPES[UA_TYPES_GUID]); }
static inline UA_Boolean UA_Guid_equal(const UA_Guid *a, const UA_Guid *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_GUID]) == UA_ORDER_EQ; }
static inline void UA_ByteString_init(UA_ByteString *p) { memset(p, 0, sizeof(UA_ByteString)); }
static inline UA_ByteString *UA_ByteString_new(void) { return (UA_ByteString *)UA_new(&UA_TYPES[UA_TYPES_BYTESTRING]); }
static inline UA_StatusCode UA_ByteString_copy(const UA_ByteString *src, UA_ByteString *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BYTESTRING]); }
static inline void UA_ByteString_clear(UA_ByteString *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BYTESTRING]); }
static inline void UA_ByteString_delete(UA_ByteString *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BYTESTRING]); }
static inline UA_Boolean UA_ByteString_equal(const UA_ByteString *a, const UA_ByteString *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BYTESTRING]) == UA_ORDER_EQ; }
static inline void UA_XmlElement_init(UA_XmlElement *p) { memset(p, 0, sizeof(UA_XmlElement)); }
static inline UA_XmlElement *UA_XmlElement_new(void) { return (UA_XmlElement *)UA_new(&UA_TYPES[UA_TYPES_XMLELEMENT]); }
static inline UA_StatusCode UA_XmlElement_copy(const UA_XmlElement *src, UA_XmlElement *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_XMLELEMENT]); }
static inline void UA_XmlElement_clear(UA_XmlElement *p) { UA_clear(p, &UA_TYPES[UA_TYPES_XMLELEMENT]); }
static inline void UA_XmlElement_delete(UA_XmlElement *p) { UA_delete(p, &UA_TYPES[UA_TYPES_XMLELEMENT]); }
static inline UA_Boolean UA_XmlElement_equal(const UA_XmlElement *a, const UA_XmlElement *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_XMLELEMENT]) == UA_ORDER_EQ; }
static inline void UA_NodeId_init(UA_NodeId *p) { memset(p, 0, sizeof(UA_NodeId)); }
static inline UA_NodeId *UA_NodeId_new(void) { return (UA_NodeId *)UA_new(&UA_TYPES[UA_TYPES_NODEID]); }
static inline UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_NODEID]); }
static inline void UA_NodeId_clear(UA_NodeId *p) { UA_clear(p, &UA_TYPES[UA_TYPES_NODEID]); }
static inline void UA_NodeId_delete(UA_NodeId *p) { UA_delete(p, &UA_TYPES[UA_TYPES_NODEID]); }
static inline UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_NODEID]) == UA_ORDER_EQ; }
static inline void UA_ExpandedNodeId_init(UA_ExpandedNodeId *p) { memset(p, 0, sizeof(UA_ExpandedNodeId)); }
static inline UA_ExpandedNodeId *UA_ExpandedNodeId_new(void) { return (UA_ExpandedNodeId *)UA_new(&UA_TYPES[UA_TYPES_EXPANDEDNODEID]); }
static inline UA_StatusCode UA_ExpandedNodeId_copy(const UA_ExpandedNodeId *src, UA_ExpandedNodeId *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_EXPANDEDNODEID]); }
static inline void UA_ExpandedNodeId_clear(UA_ExpandedNodeId *p) { UA_clear(p, &UA_TYPES[UA_TYPES_EXPANDEDNODEID]); }
static inline void UA_ExpandedNodeId_delete(UA_ExpandedNodeId *p) { UA_delete(p, &UA_TYPES[UA_TYPES_EXPANDEDNODEID]); }
static inline UA_Boolean UA_ExpandedNodeId_equal(const UA_ExpandedNodeId *a, const UA_ExpandedNodeId *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_EXPANDEDNODEID]) == UA_ORDER_EQ; }
static inline void UA_StatusCode_init(UA_StatusCode *p) { memset(p, 0, sizeof(UA_StatusCode)); }
static inline UA_StatusCode *UA_StatusCode_new(void) { return (UA_StatusCode *)UA_new(&UA_TYPES[UA_TYPES_STATUSCODE]); }
static inline UA_StatusCode UA_StatusCode_copy(const UA_StatusCode *src, UA_StatusCode *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_STATUSCODE]); }
static inline void UA_StatusCode_clear(UA_StatusCode *p) { UA_clear(p, &UA_TYPES[UA_TYPES_STATUSCODE]); }
static inline void UA_StatusCode_delete(UA_StatusCode *p) { UA_delete(p, &UA_TYPES[UA_TYPES_STATUSCODE]); }
static inline UA_Boolean UA_StatusCode_equal(const UA_StatusCode *a, const UA_StatusCode *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_STATUSCODE]) == UA_ORDER_EQ; }
static inline void UA_QualifiedName_init(UA_QualifiedName *p) { memset(p, 0, sizeof(UA_QualifiedName)); }
static inline UA_QualifiedName *UA_QualifiedName_new(void) { return (UA_QualifiedName *)UA_new(&UA_TYPES[UA_TYPES_QUALIFIEDNAME]); }
static inline UA_StatusCode UA_QualifiedName_copy(const UA_QualifiedName *src, UA_QualifiedName *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_QUALIFIEDNAME]); }
static inline void UA_QualifiedName_clear(UA_QualifiedName *p) { UA_clear(p, &UA_TYPES[UA_TYPES_QUALIFIEDNAME]); }
static inline void UA_QualifiedName_delete(UA_QualifiedName *p) { UA_delete(p, &UA_TYPES[UA_TYPES_QUALIFIEDNAME]); }
static inline UA_Boolean UA_QualifiedName_equal(const UA_QualifiedName *a, const UA_QualifiedName *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_QUALIFIEDNAME]) == UA_ORDER_EQ; }
static inline void UA_LocalizedText_init(UA_LocalizedText *p) { memset(p, 0, sizeof(UA_LocalizedText)); }
static inline UA_LocalizedText *UA_LocalizedText_new(void) { return (UA_LocalizedText *)UA_new(&UA_TYPES[UA_TYPES_LOCALIZEDTEXT]); }
static inline UA_StatusCode UA_LocalizedText_copy(const UA_LocalizedText *src, UA_LocalizedText *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_LOCALIZEDTEXT]); }
static inline void UA_LocalizedText_clear(UA_LocalizedText *p) { UA_clear(p, &UA_TYPES[UA_TYPES_LOCALIZEDTEXT]); }
static inline void UA_LocalizedText_delete(UA_LocalizedText *p) { UA_delete(p, &UA_TYPES[UA_TYPES_LOCALIZEDTEXT]); }
static inline UA_Boolean UA_LocalizedText_equal(const UA_LocalizedText *a, const UA_LocalizedText *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_LOCALIZEDTEXT]) == UA_ORDER_EQ; }
static inline void UA_ExtensionObject_init(UA_ExtensionObject *p) { memset(p, 0, sizeof(UA_ExtensionObject)); }
static inline UA_ExtensionObject *UA_ExtensionObject_new(void) { return (UA_ExtensionObject *)UA_new(&UA_TYPES[UA_TYPES_EXTENSIONOBJECT]); }
static inline UA_StatusCode UA_ExtensionObject_copy(const UA_ExtensionObject *src, UA_ExtensionObject *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_EXTENSIONOBJECT]); }
static inline void UA_ExtensionObject_clear(UA_ExtensionObject *p) { UA_clear(p, &UA_TYPES[UA_TYPES_EXTENSIONOBJECT]); }
static inline void UA_ExtensionObject_delete(UA_ExtensionObject *p) { UA_delete(p, &UA_TYPES[UA_TYPES_EXTENSIONOBJECT]); }
static inline UA_Boolean UA_ExtensionObject_equal(const UA_ExtensionObject *a, const UA_ExtensionObject *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_EXTENSIONOBJECT]) == UA_ORDER_EQ; }
static inline void UA_DataValue_init(UA_DataValue *p) { memset(p, 0, sizeof(UA_DataValue)); }
static inline UA_DataValue *UA_DataValue_new(void) { return (UA_DataValue *)UA_new(&UA_TYPES[UA_TYPES_DATAVALUE]); }
static inline UA_StatusCode UA_DataValue_copy(const UA_DataValue *src, UA_DataValue *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DATAVALUE]); }
static inline void UA_DataValue_clear(UA_DataValue *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DATAVALUE]); }
static inline void UA_DataValue_delete(UA_DataValue *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DATAVALUE]); }
static inline UA_Boolean UA_DataValue_equal(const UA_DataValue *a, const UA_DataValue *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DATAVALUE]) == UA_ORDER_EQ; }
static inline void UA_Variant_init(UA_Variant *p) { memset(p, 0, sizeof(UA_Variant)); }
static inline UA_Variant *UA_Variant_new(void) { return (UA_Variant *)UA_new(&UA_TYPES[UA_TYPES_VARIANT]); }
static inline UA_StatusCode UA_Variant_copy(const UA_Variant *src, UA_Variant *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_VARIANT]); }
static inline void UA_Variant_clear(UA_Variant *p) { UA_clear(p, &UA_TYPES[UA_TYPES_VARIANT]); }
static inline void UA_Variant_delete(UA_Variant *p) { UA_delete(p, &UA_TYPES[UA_TYPES_VARIANT]); }
static inline UA_Boolean UA_Variant_equal(const UA_Variant *a, const UA_Variant *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_VARIANT]) == UA_ORDER_EQ; }
static inline void UA_DiagnosticInfo_init(UA_DiagnosticInfo *p) { memset(p, 0, sizeof(UA_DiagnosticInfo)); }
static inline UA_DiagnosticInfo *UA_DiagnosticInfo_new(void) { return (UA_DiagnosticInfo *)UA_new(&UA_TYPES[UA_TYPES_DIAGNOSTICINFO]); }
static inline UA_StatusCode UA_DiagnosticInfo_copy(const UA_DiagnosticInfo *src, UA_DiagnosticInfo *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DIAGNOSTICINFO]); }
static inline void UA_DiagnosticInfo_clear(UA_DiagnosticInfo *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DIAGNOSTICINFO]); }
static inline void UA_DiagnosticInfo_delete(UA_DiagnosticInfo *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DIAGNOSTICINFO]); }
static inline UA_Boolean UA_DiagnosticInfo_equal(const UA_DiagnosticInfo *a, const UA_DiagnosticInfo *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DIAGNOSTICINFO]) == UA_ORDER_EQ; }
static inline void UA_NodeClass_init(UA_NodeClass *p) { memset(p, 0, sizeof(UA_NodeClass)); }
static inline UA_NodeClass *UA_NodeClass_new(void) { return (UA_NodeClass *)UA_new(&UA_TYPES[UA_TYPES_NODECLASS]); }
static inline UA_StatusCode UA_NodeClass_copy(const UA_NodeClass *src, UA_NodeClass *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_NODECLASS]); }
static inline void UA_NodeClass_clear(UA_NodeClass *p) { UA_clear(p, &UA_TYPES[UA_TYPES_NODECLASS]); }
static inline void UA_NodeClass_delete(UA_NodeClass *p) { UA_delete(p, &UA_TYPES[UA_TYPES_NODECLASS]); }
static inline UA_Boolean UA_NodeClass_equal(const UA_NodeClass *a, const UA_NodeClass *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_NODECLASS]) == UA_ORDER_EQ; }
static inline void UA_ServerState_init(UA_ServerState *p) { memset(p, 0, sizeof(UA_ServerState)); }
static inline UA_ServerState *UA_ServerState_new(void) { return (UA_ServerState *)UA_new(&UA_TYPES[UA_TYPES_SERVERSTATE]); }
static inline UA_StatusCode UA_ServerState_copy(const UA_ServerState *src, UA_ServerState *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_SERVERSTATE]); }
static inline void UA_ServerState_clear(UA_ServerState *p) { UA_clear(p, &UA_TYPES[UA_TYPES_SERVERSTATE]); }
static inline void UA_ServerState_delete(UA_ServerState *p) { UA_delete(p, &UA_TYPES[UA_TYPES_SERVERSTATE]); }
static inline UA_Boolean UA_ServerState_equal(const UA_ServerState *a, const UA_ServerState *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_SERVERSTATE]) == UA_ORDER_EQ; }
static inline void UA_AxisScaleEnumeration_init(UA_AxisScaleEnumeration *p) { memset(p, 0, sizeof(UA_AxisScaleEnumeration)); }
static inline UA_AxisScaleEnumeration *UA_AxisScaleEnumeration_new(void) { return (UA_AxisScaleEnumeration *)UA_new(&UA_TYPES[UA_TYPES_AXISSCALEENUMERATION]); }
static inline UA_StatusCode UA_AxisScaleEnumeration_copy(const UA_AxisScaleEnumeration *src, UA_AxisScaleEnumeration *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION]); }
static inline void UA_AxisScaleEnumeration_clear(UA_AxisScaleEnumeration *p) { UA_clear(p, &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION]); }
static inline void UA_AxisScaleEnumeration_delete(UA_AxisScaleEnumeration *p) { UA_delete(p, &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION]); }
static inline UA_Boolean UA_AxisScaleEnumeration_equal(const UA_AxisScaleEnumeration *a, const UA_AxisScaleEnumeration *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION]) == UA_ORDER_EQ; }
static inline void UA_ApplicationType_init(UA_ApplicationType *p) { memset(p, 0, sizeof(UA_ApplicationType)); }
static inline UA_ApplicationType *UA_ApplicationType_new(void) { return (UA_ApplicationType *)UA_new(&UA_TYPES[UA_TYPES_APPLICATIONTYPE]); }
static inline UA_StatusCode UA_ApplicationType_copy(const UA_ApplicationType *src, UA_ApplicationType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_APPLICATIONTYPE]); }
static inline void UA_ApplicationType_clear(UA_ApplicationType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_APPLICATIONTYPE]); }
static inline void UA_ApplicationType_delete(UA_ApplicationType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_APPLICATIONTYPE]); }
static inline UA_Boolean UA_ApplicationType_equal(const UA_ApplicationType *a, const UA_ApplicationType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_APPLICATIONTYPE]) == UA_ORDER_EQ; }
static inline void UA_BrowseDirection_init(UA_BrowseDirection *p) { memset(p, 0, sizeof(UA_BrowseDirection)); }
static inline UA_BrowseDirection *UA_BrowseDirection_new(void) { return (UA_BrowseDirection *)UA_new(&UA_TYPES[UA_TYPES_BROWSEDIRECTION]); }
static inline UA_StatusCode UA_BrowseDirection_copy(const UA_BrowseDirection *src, UA_BrowseDirection *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BROWSEDIRECTION]); }
static inline void UA_BrowseDirection_clear(UA_BrowseDirection *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BROWSEDIRECTION]); }
static inline void UA_BrowseDirection_delete(UA_BrowseDirection *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BROWSEDIRECTION]); }
static inline UA_Boolean UA_BrowseDirection_equal(const UA_BrowseDirection *a, const UA_BrowseDirection *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BROWSEDIRECTION]) == UA_ORDER_EQ; }
static inline void UA_MessageSecurityMode_init(UA_MessageSecurityMode *p) { memset(p, 0, sizeof(UA_MessageSecurityMode)); }
static inline UA_MessageSecurityMode *UA_MessageSecurityMode_new(void) { return (UA_MessageSecurityMode *)UA_new(&UA_TYPES[UA_TYPES_MESSAGESECURITYMODE]); }
static inline UA_StatusCode UA_MessageSecurityMode_copy(const UA_MessageSecurityMode *src, UA_MessageSecurityMode *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_MESSAGESECURITYMODE]); }
static inline void UA_MessageSecurityMode_clear(UA_MessageSecurityMode *p) { UA_clear(p, &UA_TYPES[UA_TYPES_MESSAGESECURITYMODE]); }
static inline void UA_MessageSecurityMode_delete(UA_MessageSecurityMode *p) { UA_delete(p, &UA_TYPES[UA_TYPES_MESSAGESECURITYMODE]); }
static inline UA_Boolean UA_MessageSecurityMode_equal(const UA_MessageSecurityMode *a, const UA_MessageSecurityMode *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_MESSAGESECURITYMODE]) == UA_ORDER_EQ; }
static inline void UA_StructureType_init(UA_StructureType *p) { memset(p, 0, sizeof(UA_StructureType)); }
static inline UA_StructureType *UA_StructureType_new(void) { return (UA_StructureType *)UA_new(&UA_TYPES[UA_TYPES_STRUCTURETYPE]); }
static inline UA_StatusCode UA_StructureType_copy(const UA_StructureType *src, UA_StructureType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_STRUCTURETYPE]); }
static inline void UA_StructureType_clear(UA_StructureType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_STRUCTURETYPE]); }
static inline void UA_StructureType_delete(UA_StructureType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_STRUCTURETYPE]); }
static inline UA_Boolean UA_StructureType_equal(const UA_StructureType *a, const UA_StructureType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_STRUCTURETYPE]) == UA_ORDER_EQ; }
static inline void UA_RedundancySupport_init(UA_RedundancySupport *p) { memset(p, 0, sizeof(UA_RedundancySupport)); }
static inline UA_RedundancySupport *UA_RedundancySupport_new(void) { return (UA_RedundancySupport *)UA_new(&UA_TYPES[UA_TYPES_REDUNDANCYSUPPORT]); }
static inline UA_StatusCode UA_RedundancySupport_copy(const UA_RedundancySupport *src, UA_RedundancySupport *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_REDUNDANCYSUPPORT]); }
static inline void UA_RedundancySupport_clear(UA_RedundancySupport *p) { UA_clear(p, &UA_TYPES[UA_TYPES_REDUNDANCYSUPPORT]); }
static inline void UA_RedundancySupport_delete(UA_RedundancySupport *p) { UA_delete(p, &UA_TYPES[UA_TYPES_REDUNDANCYSUPPORT]); }
static inline UA_Boolean UA_RedundancySupport_equal(const UA_RedundancySupport *a, const UA_RedundancySupport *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_REDUNDANCYSUPPORT]) == UA_ORDER_EQ; }
static inline void UA_Argument_init(UA_Argument *p) { memset(p, 0, sizeof(UA_Argument)); }
static inline UA_Argument *UA_Argument_new(void) { return (UA_Argument *)UA_new(&UA_TYPES[UA_TYPES_ARGUMENT]); }
static inline UA_StatusCode UA_Argument_copy(const UA_Argument *src, UA_Argument *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_ARGUMENT]); }
static inline void UA_Argument_clear(UA_Argument *p) { UA_clear(p, &UA_TYPES[UA_TYPES_ARGUMENT]); }
static inline void UA_Argument_delete(UA_Argument *p) { UA_delete(p, &UA_TYPES[UA_TYPES_ARGUMENT]); }
static inline UA_Boolean UA_Argument_equal(const UA_Argument *a, const UA_Argument *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_ARGUMENT]) == UA_ORDER_EQ; }
static inline void UA_EUInformation_init(UA_EUInformation *p) { memset(p, 0, sizeof(UA_EUInformation)); }
static inline UA_EUInformation *UA_EUInformation_new(void) { return (UA_EUInformation *)UA_new(&UA_TYPES[UA_TYPES_EUINFORMATION]); }
static inline UA_StatusCode UA_EUInformation_copy(const UA_EUInformation *src, UA_EUInformation *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_EUINFORMATION]); }
static inline void UA_EUInformation_clear(UA_EUInformation *p) { UA_clear(p, &UA_TYPES[UA_TYPES_EUINFORMATION]); }
static inline void UA_EUInformation_delete(UA_EUInformation *p) { UA_delete(p, &UA_TYPES[UA_TYPES_EUINFORMATION]); }
static inline UA_Boolean UA_EUInformation_equal(const UA_EUInformation *a, const UA_EUInformation *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_EUINFORMATION]) == UA_ORDER_EQ; }
static inline void UA_Range_init(UA_Range *p) { memset(p, 0, sizeof(UA_Range)); }
static inline UA_Range *UA_Range_new(void) { return (UA_Range *)UA_new(&UA_TYPES[UA_TYPES_RANGE]); }
static inline UA_StatusCode UA_Range_copy(const UA_Range *src, UA_Range *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_RANGE]); }
static inline void UA_Range_clear(UA_Range *p) { UA_clear(p, &UA_TYPES[UA_TYPES_RANGE]); }
static inline void UA_Range_delete(UA_Range *p) { UA_delete(p, &UA_TYPES[UA_TYPES_RANGE]); }
static inline UA_Boolean UA_Range_equal(const UA_Range *a, const UA_Range *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_RANGE]) == UA_ORDER_EQ; }
static inline void UA_EnumValueType_init(UA_EnumValueType *p) { memset(p, 0, sizeof(UA_EnumValueType)); }
static inline UA_EnumValueType *UA_EnumValueType_new(void) { return (UA_EnumValueType *)UA_new(&UA_TYPES[UA_TYPES_ENUMVALUETYPE]); }
static inline UA_StatusCode UA_EnumValueType_copy(const UA_EnumValueType *src, UA_EnumValueType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_ENUMVALUETYPE]); }
static inline void UA_EnumValueType_clear(UA_EnumValueType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_ENUMVALUETYPE]); }
static inline void UA_EnumValueType_delete(UA_EnumValueType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_ENUMVALUETYPE]); }
static inline UA_Boolean UA_EnumValueType_equal(const UA_EnumValueType *a, const UA_EnumValueType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_ENUMVALUETYPE]) == UA_ORDER_EQ; }
static inline void UA_TimeZoneDataType_init(UA_TimeZoneDataType *p) { memset(p, 0, sizeof(UA_TimeZoneDataType)); }
static inline UA_TimeZoneDataType *UA_TimeZoneDataType_new(void) { return (UA_TimeZoneDataType *)UA_new(&UA_TYPES[UA_TYPES_TIMEZONEDATATYPE]); }
static inline UA_StatusCode UA_TimeZoneDataType_copy(const UA_TimeZoneDataType *src, UA_TimeZoneDataType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_TIMEZONEDATATYPE]); }
static inline void UA_TimeZoneDataType_clear(UA_TimeZoneDataType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_TIMEZONEDATATYPE]); }
static inline void UA_TimeZoneDataType_delete(UA_TimeZoneDataType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_TIMEZONEDATATYPE]); }
static inline UA_Boolean UA_TimeZoneDataType_equal(const UA_TimeZoneDataType *a, const UA_TimeZoneDataType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_TIMEZONEDATATYPE]) == UA_ORDER_EQ; }
static inline void UA_RolePermissionType_init(UA_RolePermissionType *p) { memset(p, 0, sizeof(UA_RolePermissionType)); }
static inline UA_RolePermissionType *UA_RolePermissionType_new(void) { return (UA_RolePermissionType *)UA_new(&UA_TYPES[UA_TYPES_ROLEPERMISSIONTYPE]); }
static inline UA_StatusCode UA_RolePermissionType_copy(const UA_RolePermissionType *src, UA_RolePermissionType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_ROLEPERMISSIONTYPE]); }
static inline void UA_RolePermissionType_clear(UA_RolePermissionType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_ROLEPERMISSIONTYPE]); }
static inline void UA_RolePermissionType_delete(UA_RolePermissionType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_ROLEPERMISSIONTYPE]); }
static inline UA_Boolean UA_RolePermissionType_equal(const UA_RolePermissionType *a, const UA_RolePermissionType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_ROLEPERMISSIONTYPE]) == UA_ORDER_EQ; }
static inline void UA_XVType_init(UA_XVType *p) { memset(p, 0, sizeof(UA_XVType)); }
static inline UA_XVType *UA_XVType_new(void) { return (UA_XVType *)UA_new(&UA_TYPES[UA_TYPES_XVTYPE]); }
static inline UA_StatusCode UA_XVType_copy(const UA_XVType *src, UA_XVType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_XVTYPE]); }
static inline void UA_XVType_clear(UA_XVType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_XVTYPE]); }
static inline void UA_XVType_delete(UA_XVType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_XVTYPE]); }
static inline UA_Boolean UA_XVType_equal(const UA_XVType *a, const UA_XVType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_XVTYPE]) == UA_ORDER_EQ; }
static inline void UA_ComplexNumberType_init(UA_ComplexNumberType *p) { memset(p, 0, sizeof(UA_ComplexNumberType)); }
static inline UA_ComplexNumberType *UA_ComplexNumberType_new(void) { return (UA_ComplexNumberType *)UA_new(&UA_TYPES[UA_TYPES_COMPLEXNUMBERTYPE]); }
static inline UA_StatusCode UA_ComplexNumberType_copy(const UA_ComplexNumberType *src, UA_ComplexNumberType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_COMPLEXNUMBERTYPE]); }
static inline void UA_ComplexNumberType_clear(UA_ComplexNumberType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_COMPLEXNUMBERTYPE]); }
static inline void UA_ComplexNumberType_delete(UA_ComplexNumberType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_COMPLEXNUMBERTYPE]); }
static inline UA_Boolean UA_ComplexNumberType_equal(const UA_ComplexNumberType *a, const UA_ComplexNumberType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_COMPLEXNUMBERTYPE]) == UA_ORDER_EQ; }
static inline void UA_DoubleComplexNumberType_init(UA_DoubleComplexNumberType *p) { memset(p, 0, sizeof(UA_DoubleComplexNumberType)); }
static inline UA_DoubleComplexNumberType *UA_DoubleComplexNumberType_new(void) { return (UA_DoubleComplexNumberType *)UA_new(&UA_TYPES[UA_TYPES_DOUBLECOMPLEXNUMBERTYPE]); }
static inline UA_StatusCode UA_DoubleComplexNumberType_copy(const UA_DoubleComplexNumberType *src, UA_DoubleComplexNumberType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DOUBLECOMPLEXNUMBERTYPE]); }
static inline void UA_DoubleComplexNumberType_clear(UA_DoubleComplexNumberType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DOUBLECOMPLEXNUMBERTYPE]); }
static inline void UA_DoubleComplexNumberType_delete(UA_DoubleComplexNumberType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DOUBLECOMPLEXNUMBERTYPE]); }
static inline UA_Boolean UA_DoubleComplexNumberType_equal(const UA_DoubleComplexNumberType *a, const UA_DoubleComplexNumberType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DOUBLECOMPLEXNUMBERTYPE]) == UA_ORDER_EQ; }
static inline void UA_AxisInformation_init(UA_AxisInformation *p) { memset(p, 0, sizeof(UA_AxisInformation)); }
static inline UA_AxisInformation *UA_AxisInformation_new(void) { return (UA_AxisInformation *)UA_new(&UA_TYPES[UA_TYPES_AXISINFORMATION]); }
static inline UA_StatusCode UA_AxisInformation_copy(const UA_AxisInformation *src, UA_AxisInformation *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_AXISINFORMATION]); }
static inline void UA_AxisInformation_clear(UA_AxisInformation *p) { UA_clear(p, &UA_TYPES[UA_TYPES_AXISINFORMATION]); }
static inline void UA_AxisInformation_delete(UA_AxisInformation *p) { UA_delete(p, &UA_TYPES[UA_TYPES_AXISINFORMATION]); }
static inline UA_Boolean UA_AxisInformation_equal(const UA_AxisInformation *a, const UA_AxisInformation *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_AXISINFORMATION]) == UA_ORDER_EQ; }
static inline void UA_BuildInfo_init(UA_BuildInfo *p) { memset(p, 0, sizeof(UA_BuildInfo)); }
static inline UA_BuildInfo *UA_BuildInfo_new(void) { return (UA_BuildInfo *)UA_new(&UA_TYPES[UA_TYPES_BUILDINFO]); }
static inline UA_StatusCode UA_BuildInfo_copy(const UA_BuildInfo *src, UA_BuildInfo *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BUILDINFO]); }
static inline void UA_BuildInfo_clear(UA_BuildInfo *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BUILDINFO]); }
static inline void UA_BuildInfo_delete(UA_BuildInfo *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BUILDINFO]); }
static inline UA_Boolean UA_BuildInfo_equal(const UA_BuildInfo *a, const UA_BuildInfo *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BUILDINFO]) == UA_ORDER_EQ; }
static inline void UA_ServerStatusDataType_init(UA_ServerStatusDataType *p) { memset(p, 0, sizeof(UA_ServerStatusDataType)); }
static inline UA_ServerStatusDataType *UA_ServerStatusDataType_new(void) { return (UA_ServerStatusDataType *)UA_new(&UA_TYPES[UA_TYPES_SERVERSTATUSDATATYPE]); }
static inline UA_StatusCode UA_ServerStatusDataType_copy(const UA_ServerStatusDataType *src, UA_ServerStatusDataType *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_SERVERSTATUSDATATYPE]); }
static inline void UA_ServerStatusDataType_clear(UA_ServerStatusDataType *p) { UA_clear(p, &UA_TYPES[UA_TYPES_SERVERSTATUSDATATYPE]); }
static inline void UA_ServerStatusDataType_delete(UA_ServerStatusDataType *p) { UA_delete(p, &UA_TYPES[UA_TYPES_SERVERSTATUSDATATYPE]); }
static inline UA_Boolean UA_ServerStatusDataType_equal(const UA_ServerStatusDataType *a, const UA_ServerStatusDataType *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_SERVERSTATUSDATATYPE]) == UA_ORDER_EQ; }
static inline void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof(UA_BrowseDescription)); }
static inline UA_BrowseDescription *UA_BrowseDescription_new(void) { return (UA_BrowseDescription *)UA_new(&UA_TYPES[UA_TYPES_BROWSEDESCRIPTION]); }
static inline UA_StatusCode UA_BrowseDescription_copy(const UA_BrowseDescription *src, UA_BrowseDescription *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BROWSEDESCRIPTION]); }
static inline void UA_BrowseDescription_clear(UA_BrowseDescription *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BROWSEDESCRIPTION]); }
static inline void UA_BrowseDescription_delete(UA_BrowseDescription *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BROWSEDESCRIPTION]); }
static inline UA_Boolean UA_BrowseDescription_equal(const UA_BrowseDescription *a, const UA_BrowseDescription *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BROWSEDESCRIPTION]) == UA_ORDER_EQ; }
static inline void UA_ReferenceDescription_init(UA_ReferenceDescription *p) { memset(p, 0, sizeof(UA_ReferenceDescription)); }
static inline UA_ReferenceDescription *UA_ReferenceDescription_new(void) { return (UA_ReferenceDescription *)UA_new(&UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]); }
static inline UA_StatusCode UA_ReferenceDescription_copy(const UA_ReferenceDescription *src, UA_ReferenceDescription *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]); }
static inline void UA_ReferenceDescription_clear(UA_ReferenceDescription *p) { UA_clear(p, &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]); }
static inline void UA_ReferenceDescription_delete(UA_ReferenceDescription *p) { UA_delete(p, &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]); }
static inline UA_Boolean UA_ReferenceDescription_equal(const UA_ReferenceDescription *a, const UA_ReferenceDescription *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]) == UA_ORDER_EQ; }
static inline void UA_BrowseResult_init(UA_BrowseResult *p) { memset(p, 0, sizeof(UA_BrowseResult)); }
static inline UA_BrowseResult *UA_BrowseResult_new(void) { return (UA_BrowseResult *)UA_new(&UA_TYPES[UA_TYPES_BROWSERESULT]); }
static inline UA_StatusCode UA_BrowseResult_copy(const UA_BrowseResult *src, UA_BrowseResult *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_BROWSERESULT]); }
static inline void UA_BrowseResult_clear(UA_BrowseResult *p) { UA_clear(p, &UA_TYPES[UA_TYPES_BROWSERESULT]); }
static inline void UA_BrowseResult_delete(UA_BrowseResult *p) { UA_delete(p, &UA_TYPES[UA_TYPES_BROWSERESULT]); }
static inline UA_Boolean UA_BrowseResult_equal(const UA_BrowseResult *a, const UA_BrowseResult *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_BROWSERESULT]) == UA_ORDER_EQ; }
static inline void UA_ObjectAttributes_init(UA_ObjectAttributes *p) { memset(p, 0, sizeof(UA_ObjectAttributes)); }
static inline UA_ObjectAttributes *UA_ObjectAttributes_new(void) { return (UA_ObjectAttributes *)UA_new(&UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]); }
static inline UA_StatusCode UA_ObjectAttributes_copy(const UA_ObjectAttributes *src, UA_ObjectAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]); }
static inline void UA_ObjectAttributes_clear(UA_ObjectAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]); }
static inline void UA_ObjectAttributes_delete(UA_ObjectAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]); }
static inline UA_Boolean UA_ObjectAttributes_equal(const UA_ObjectAttributes *a, const UA_ObjectAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_VariableAttributes_init(UA_VariableAttributes *p) { memset(p, 0, sizeof(UA_VariableAttributes)); }
static inline UA_VariableAttributes *UA_VariableAttributes_new(void) { return (UA_VariableAttributes *)UA_new(&UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]); }
static inline UA_StatusCode UA_VariableAttributes_copy(const UA_VariableAttributes *src, UA_VariableAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]); }
static inline void UA_VariableAttributes_clear(UA_VariableAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]); }
static inline void UA_VariableAttributes_delete(UA_VariableAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]); }
static inline UA_Boolean UA_VariableAttributes_equal(const UA_VariableAttributes *a, const UA_VariableAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_MethodAttributes_init(UA_MethodAttributes *p) { memset(p, 0, sizeof(UA_MethodAttributes)); }
static inline UA_MethodAttributes *UA_MethodAttributes_new(void) { return (UA_MethodAttributes *)UA_new(&UA_TYPES[UA_TYPES_METHODATTRIBUTES]); }
static inline UA_StatusCode UA_MethodAttributes_copy(const UA_MethodAttributes *src, UA_MethodAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_METHODATTRIBUTES]); }
static inline void UA_MethodAttributes_clear(UA_MethodAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_METHODATTRIBUTES]); }
static inline void UA_MethodAttributes_delete(UA_MethodAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_METHODATTRIBUTES]); }
static inline UA_Boolean UA_MethodAttributes_equal(const UA_MethodAttributes *a, const UA_MethodAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_METHODATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_ObjectTypeAttributes_init(UA_ObjectTypeAttributes *p) { memset(p, 0, sizeof(UA_ObjectTypeAttributes)); }
static inline UA_ObjectTypeAttributes *UA_ObjectTypeAttributes_new(void) { return (UA_ObjectTypeAttributes *)UA_new(&UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES]); }
static inline UA_StatusCode UA_ObjectTypeAttributes_copy(const UA_ObjectTypeAttributes *src, UA_ObjectTypeAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES]); }
static inline void UA_ObjectTypeAttributes_clear(UA_ObjectTypeAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES]); }
static inline void UA_ObjectTypeAttributes_delete(UA_ObjectTypeAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES]); }
static inline UA_Boolean UA_ObjectTypeAttributes_equal(const UA_ObjectTypeAttributes *a, const UA_ObjectTypeAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_VariableTypeAttributes_init(UA_VariableTypeAttributes *p) { memset(p, 0, sizeof(UA_VariableTypeAttributes)); }
static inline UA_VariableTypeAttributes *UA_VariableTypeAttributes_new(void) { return (UA_VariableTypeAttributes *)UA_new(&UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]); }
static inline UA_StatusCode UA_VariableTypeAttributes_copy(const UA_VariableTypeAttributes *src, UA_VariableTypeAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]); }
static inline void UA_VariableTypeAttributes_clear(UA_VariableTypeAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]); }
static inline void UA_VariableTypeAttributes_delete(UA_VariableTypeAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]); }
static inline UA_Boolean UA_VariableTypeAttributes_equal(const UA_VariableTypeAttributes *a, const UA_VariableTypeAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_ReferenceTypeAttributes_init(UA_ReferenceTypeAttributes *p) { memset(p, 0, sizeof(UA_ReferenceTypeAttributes)); }
static inline UA_ReferenceTypeAttributes *UA_ReferenceTypeAttributes_new(void) { return (UA_ReferenceTypeAttributes *)UA_new(&UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES]); }
static inline UA_StatusCode UA_ReferenceTypeAttributes_copy(const UA_ReferenceTypeAttributes *src, UA_ReferenceTypeAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES]); }
static inline void UA_ReferenceTypeAttributes_clear(UA_ReferenceTypeAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES]); }
static inline void UA_ReferenceTypeAttributes_delete(UA_ReferenceTypeAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES]); }
static inline UA_Boolean UA_ReferenceTypeAttributes_equal(const UA_ReferenceTypeAttributes *a, const UA_ReferenceTypeAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_DataTypeAttributes_init(UA_DataTypeAttributes *p) { memset(p, 0, sizeof(UA_DataTypeAttributes)); }
static inline UA_DataTypeAttributes *UA_DataTypeAttributes_new(void) { return (UA_DataTypeAttributes *)UA_new(&UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES]); }
static inline UA_StatusCode UA_DataTypeAttributes_copy(const UA_DataTypeAttributes *src, UA_DataTypeAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES]); }
static inline void UA_DataTypeAttributes_clear(UA_DataTypeAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES]); }
static inline void UA_DataTypeAttributes_delete(UA_DataTypeAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES]); }
static inline UA_Boolean UA_DataTypeAttributes_equal(const UA_DataTypeAttributes *a, const UA_DataTypeAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES]) == UA_ORDER_EQ; }
static inline void UA_ViewAttributes_init(UA_ViewAttributes *p) { memset(p, 0, sizeof(UA_ViewAttributes)); }
static inline UA_ViewAttributes *UA_ViewAttributes_new(void) { return (UA_ViewAttributes *)UA_new(&UA_TYPES[UA_TYPES_VIEWATTRIBUTES]); }
static inline UA_StatusCode UA_ViewAttributes_copy(const UA_ViewAttributes *src, UA_ViewAttributes *dst) { return UA_copy(src, dst, &UA_TYPES[UA_TYPES_VIEWATTRIBUTES]); }
static inline void UA_ViewAttributes_clear(UA_ViewAttributes *p) { UA_clear(p, &UA_TYPES[UA_TYPES_VIEWATTRIBUTES]); }
static inline void UA_ViewAttributes_delete(UA_ViewAttributes *p) { UA_delete(p, &UA_TYPES[UA_TYPES_VIEWATTRIBUTES]); }
static inline UA_Boolean UA_ViewAttributes_equal(const UA_ViewAttributes *a, const UA_ViewAttributes *b) { return UA_order(a, b, &UA_TYPES[UA_TYPES_VIEWATTRIBUTES]) == UA_ORDER_EQ; }
extern const UA_ObjectAttributes UA_ObjectAttributes_default;
extern const UA_VariableAttributes UA_VariableAttributes_default;
extern const UA_MethodAttributes UA_MethodAttributes_default;
extern const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
extern const UA_VariableTypeAttributes UA_VariableTypeAttributes_default;
extern const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
extern const UA_DataTypeAttributes UA_DataTypeAttributes_default;
extern const UA_ViewAttributes UA_ViewAttributes_default;
_UA_END_DECLS
#endif
