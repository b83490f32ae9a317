#ifndef SHIM_UA_SERVER_H
#define SHIM_UA_SERVER_H
#include "types.h"
#include "types_generated.h"
#include "types_generated_handling.h"
#include "nodeids.h"
#include "util.h"
#include "plugin/log.h"
#include "plugin/log_stdout.h"
_UA_BEGIN_DECLS
struct UA_Server;
typedef struct UA_Server UA_Server;
typedef struct UA_ServerConfig {
    void *context;
    UA_Logger *logging;
    const UA_DataTypeArray *customDataTypes;
} UA_ServerConfig;
UA_Server *UA_Server_new(void);
UA_StatusCode UA_Server_delete(UA_Server *server);
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_StatusCode UA_Server_run(UA_Server *server, const volatile UA_Boolean *running);
UA_StatusCode UA_Server_run_startup(UA_Server *server);
UA_StatusCode UA_Server_run_shutdown(UA_Server *server);
UA_UInt16 UA_Server_run_iterate(UA_Server *server, UA_Boolean waitInternal);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *server, const UA_String namespaceUri, size_t *foundIndex);
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *server, const size_t namespaceIndex, UA_String *foundUri);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
UA_BrowseResult UA_Server_browseNext(UA_Server *server, UA_Boolean releaseContinuationPoint, const UA_ByteString *continuationPoint);
const UA_DataType *UA_Server_findDataType(UA_Server *server, const UA_NodeId *typeId);

UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_NodeId typeDefinition, const void *attr, const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
UA_StatusCode UA_Server_deleteNode(UA_Server *server, const UA_NodeId nodeId, UA_Boolean deleteReferences);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId,
    const UA_ExpandedNodeId targetId, UA_Boolean isForward);
UA_StatusCode UA_Server_deleteReference(UA_Server *server, const UA_NodeId sourceNodeId, const UA_NodeId referenceTypeId,
    UA_Boolean isForward, const UA_ExpandedNodeId targetNodeId, UA_Boolean deleteBidirectional);
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server, const UA_NodeId *sessionId, void *sessionContext,
    const UA_NodeId *methodId, void *methodContext, const UA_NodeId *objectId, void *objectContext,
    size_t inputSize, const UA_Variant *input, size_t outputSize, UA_Variant *output);

UA_StatusCode shim_addTyped(UA_Server *server, UA_NodeClass nc, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_NodeId typeDef, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out);
static inline UA_StatusCode UA_Server_addVariableNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_NodeId typeDef, const UA_VariableAttributes attr, void *ctx, UA_NodeId *out) {
    return shim_addTyped(server, UA_NODECLASS_VARIABLE, id, parent, refType, bn, typeDef, &attr, &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES], ctx, out); }
static inline UA_StatusCode UA_Server_addVariableTypeNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_NodeId typeDef, const UA_VariableTypeAttributes attr, void *ctx, UA_NodeId *out) {
    return shim_addTyped(server, UA_NODECLASS_VARIABLETYPE, id, parent, refType, bn, typeDef, &attr, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES], ctx, out); }
static inline UA_StatusCode UA_Server_addObjectNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_NodeId typeDef, const UA_ObjectAttributes attr, void *ctx, UA_NodeId *out) {
    return shim_addTyped(server, UA_NODECLASS_OBJECT, id, parent, refType, bn, typeDef, &attr, &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES], ctx, out); }
#define SHIM_ADD(NAME, CLASS, ATTR, TIDX) \
static inline UA_StatusCode NAME(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType, \
    const UA_QualifiedName bn, const ATTR attr, void *ctx, UA_NodeId *out) { \
    return shim_addTyped(server, CLASS, id, parent, refType, bn, UA_NODEID_NULL, &attr, &UA_TYPES[TIDX], ctx, out); }
SHIM_ADD(UA_Server_addObjectTypeNode, UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes, UA_TYPES_OBJECTTYPEATTRIBUTES)
SHIM_ADD(UA_Server_addViewNode, UA_NODECLASS_VIEW, UA_ViewAttributes, UA_TYPES_VIEWATTRIBUTES)
SHIM_ADD(UA_Server_addReferenceTypeNode, UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, UA_TYPES_REFERENCETYPEATTRIBUTES)
SHIM_ADD(UA_Server_addDataTypeNode, UA_NODECLASS_DATATYPE, UA_DataTypeAttributes, UA_TYPES_DATATYPEATTRIBUTES)
static inline UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_MethodAttributes attr, UA_MethodCallback method, size_t inSize, const UA_Argument *in,
    size_t outSize, const UA_Argument *outArgs, void *ctx, UA_NodeId *out) {
    (void)method; (void)inSize; (void)in; (void)outSize; (void)outArgs;
    return shim_addTyped(server, UA_NODECLASS_METHOD, id, parent, refType, bn, UA_NODEID_NULL, &attr, &UA_TYPES[UA_TYPES_METHODATTRIBUTES], ctx, out); }

UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *out);
UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *out);
UA_StatusCode UA_Server_readDisplayName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readDescription(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readSymmetric(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readInverseName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out);
UA_StatusCode UA_Server_readEventNotifier(UA_Server *s, const UA_NodeId id, UA_Byte *out);
UA_StatusCode UA_Server_readContainsNoLoop(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readContainsNoLoops(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *out);
UA_StatusCode UA_Server_readDataType(UA_Server *s, const UA_NodeId id, UA_NodeId *out);
UA_StatusCode UA_Server_readValueRank(UA_Server *s, const UA_NodeId id, UA_Int32 *out);
UA_StatusCode UA_Server_readArrayDimensions(UA_Server *s, const UA_NodeId id, UA_Variant *out);
UA_StatusCode UA_Server_readAccessLevel(UA_Server *s, const UA_NodeId id, UA_Byte *out);
UA_StatusCode UA_Server_readMinimumSamplingInterval(UA_Server *s, const UA_NodeId id, UA_Double *out);
UA_StatusCode UA_Server_readHistorizing(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_readExecutable(UA_Server *s, const UA_NodeId id, UA_Boolean *out);
UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant value);
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **ctx);
UA_StatusCode UA_Server_setNodeContext(UA_Server *s, UA_NodeId id, void *ctx);

/* --- inspection interface for the checks (not part of open62541) --- */
typedef struct { UA_NodeId refType; UA_NodeId target; UA_Boolean isForward; } ShimRef;
typedef struct ShimNode {
    UA_NodeId id; UA_NodeClass nodeClass; UA_QualifiedName browseName;
    void *attr; const UA_DataType *attrType; void *context;
    size_t refsSize, refsCap; ShimRef *refs; UA_Boolean isBase; UA_Boolean finished;
    struct ShimNode *hnext; unsigned long mark;
} ShimNode;
size_t shim_nodeCount(UA_Server *s);
const ShimNode *shim_nodeAt(UA_Server *s, size_t i);
const ShimNode *shim_findNode(UA_Server *s, const UA_NodeId *id);
size_t shim_namespaceCount(UA_Server *s);
UA_String shim_namespaceAt(UA_Server *s, size_t i);
_UA_END_DECLS
#endif
