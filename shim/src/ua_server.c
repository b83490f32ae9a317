/* Stand-in for the open62541 server: an in-memory address space with the node and reference rules
 * of open62541's AddNodes/AddReferences services that the backend relies on. */
#include <open62541/server.h>
#include <open62541/server_config_default.h>
#include <stdio.h>

typedef struct { UA_UInt32 id; int nodeClass; int isAbstract; int symmetric; const char *name; } NS0Node;
typedef struct { UA_UInt32 source, refType, target; } NS0Ref;
#include "ns0_table.inc"

#define HASHSIZE 8192
struct UA_Server {
    UA_ServerConfig config;
    UA_String *ns; size_t nsSize;
    ShimNode **nodes; size_t nodesSize, nodesCap;
    ShimNode *hash[HASHSIZE];
};

/* ---------- logging ---------- */
static void stdoutLog(void *ctx, UA_LogLevel level, UA_LogCategory cat, const char *msg, va_list args) {
    (void)cat;
    if((uintptr_t)ctx > (uintptr_t)level) return;
    vfprintf(stdout, msg, args); fputc('\n', stdout); fflush(stdout);
}
const UA_Logger UA_Log_Stdout_ = {stdoutLog, NULL, NULL};
const UA_Logger *UA_Log_Stdout = &UA_Log_Stdout_;
UA_Logger UA_Log_Stdout_withLevel(UA_LogLevel l) { UA_Logger lg = {stdoutLog, (void *)(uintptr_t)l, NULL}; return lg; }

/* ---------- node store ---------- */
static unsigned bucket(const UA_NodeId *id) { return UA_NodeId_hash(id) % HASHSIZE; }
static ShimNode *find(UA_Server *s, const UA_NodeId *id) {
    for(ShimNode *n = s->hash[bucket(id)]; n; n = n->hnext)
        if(UA_NodeId_equal(&n->id, id)) return n;
    return NULL;
}
static void insert(UA_Server *s, ShimNode *n) {
    if(s->nodesSize == s->nodesCap) {
        s->nodesCap = s->nodesCap ? 2 * s->nodesCap : 1024;
        s->nodes = (ShimNode **)realloc(s->nodes, s->nodesCap * sizeof(*s->nodes));
    }
    s->nodes[s->nodesSize++] = n;
    unsigned b = bucket(&n->id); n->hnext = s->hash[b]; s->hash[b] = n;
}
static void freeNode(ShimNode *n) {
    UA_NodeId_clear(&n->id); UA_QualifiedName_clear(&n->browseName);
    if(n->attr) { UA_clear(n->attr, n->attrType); free(n->attr); }
    for(size_t i = 0; i < n->refsSize; i++) { UA_NodeId_clear(&n->refs[i].refType); UA_NodeId_clear(&n->refs[i].target); }
    free(n->refs); free(n);
}
static int hasRef(const ShimNode *n, const UA_NodeId *rt, const UA_NodeId *target, UA_Boolean fwd) {
    for(size_t i = 0; i < n->refsSize; i++)
        if(n->refs[i].isForward == fwd && UA_NodeId_equal(&n->refs[i].refType, rt) && UA_NodeId_equal(&n->refs[i].target, target)) return 1;
    return 0;
}
static void pushRef(ShimNode *n, const UA_NodeId *rt, const UA_NodeId *target, UA_Boolean fwd) {
    if(n->refsSize == n->refsCap) {
        n->refsCap = n->refsCap ? 2 * n->refsCap : 4;
        n->refs = (ShimRef *)realloc(n->refs, n->refsCap * sizeof(ShimRef));
    }
    ShimRef *r = &n->refs[n->refsSize++];
    UA_NodeId_copy(rt, &r->refType); UA_NodeId_copy(target, &r->target); r->isForward = fwd;
}
static void dropRefs(ShimNode *n, const UA_NodeId *target) {
    size_t w = 0;
    for(size_t i = 0; i < n->refsSize; i++) {
        if(UA_NodeId_equal(&n->refs[i].target, target)) { UA_NodeId_clear(&n->refs[i].refType); UA_NodeId_clear(&n->refs[i].target); }
        else n->refs[w++] = n->refs[i];
    }
    n->refsSize = w;
}
static void removeNode(UA_Server *s, ShimNode *n) {
    for(size_t i = 0; i < n->refsSize; i++) { ShimNode *t = find(s, &n->refs[i].target); if(t && t != n) dropRefs(t, &n->id); }
    ShimNode **p = &s->hash[bucket(&n->id)];
    while(*p != n) p = &(*p)->hnext;
    *p = n->hnext;
    size_t i = 0; while(s->nodes[i] != n) i++;
    memmove(&s->nodes[i], &s->nodes[i + 1], (s->nodesSize - i - 1) * sizeof(*s->nodes)); s->nodesSize--;
    freeNode(n);
}

/* is `id` equal to `root` or a subtype of it */
static _Thread_local unsigned long markGen; /* servers of different threads are independent */
static int subtypeWalk(UA_Server *s, const UA_NodeId *id, const UA_NodeId *root) {
    if(UA_NodeId_equal(id, root)) return 1;
    const UA_NodeId sub = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
    ShimNode *n = find(s, id);
    if(!n || n->mark == markGen) return 0;
    n->mark = markGen;
    for(size_t i = 0; i < n->refsSize; i++)
        if(!n->refs[i].isForward && UA_NodeId_equal(&n->refs[i].refType, &sub) && subtypeWalk(s, &n->refs[i].target, root)) return 1;
    return 0;
}
static int subtypeOf(UA_Server *s, const UA_NodeId *id, const UA_NodeId *root) { markGen++; return subtypeWalk(s, id, root); }

/* ---------- life cycle ---------- */
static void addNs(UA_Server *s, const char *uri) {
    s->ns = (UA_String *)realloc(s->ns, (s->nsSize + 1) * sizeof(UA_String));
    s->ns[s->nsSize++] = UA_STRING_ALLOC(uri);
}
UA_Server *UA_Server_new(void) {
    UA_Server *s = (UA_Server *)calloc(1, sizeof(*s));
    s->config.logging = (UA_Logger *)malloc(sizeof(UA_Logger));
    *s->config.logging = UA_Log_Stdout_;
    addNs(s, "http://opcfoundation.org/UA/"); addNs(s, "urn:open62541.server.application");
    for(size_t i = 0; i < sizeof(ns0Nodes) / sizeof(ns0Nodes[0]); i++) {
        ShimNode *n = (ShimNode *)calloc(1, sizeof(*n));
        n->id = UA_NODEID_NUMERIC(0, ns0Nodes[i].id); n->nodeClass = (UA_NodeClass)ns0Nodes[i].nodeClass;
        n->browseName = UA_QUALIFIEDNAME_ALLOC(0, ns0Nodes[i].name); n->isBase = true; n->finished = true;
        switch(n->nodeClass) {
#define BASE(C, T, TI, EXTRA) case C: { T *a = (T *)calloc(1, sizeof(T)); *a = T##_default; a->displayName = UA_LOCALIZEDTEXT_ALLOC("", ns0Nodes[i].name); EXTRA; n->attr = a; n->attrType = &UA_TYPES[TI]; break; }
        BASE(UA_NODECLASS_OBJECT, UA_ObjectAttributes, UA_TYPES_OBJECTATTRIBUTES, )
        BASE(UA_NODECLASS_VARIABLE, UA_VariableAttributes, UA_TYPES_VARIABLEATTRIBUTES, )
        BASE(UA_NODECLASS_METHOD, UA_MethodAttributes, UA_TYPES_METHODATTRIBUTES, )
        BASE(UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes, UA_TYPES_OBJECTTYPEATTRIBUTES, a->isAbstract = ns0Nodes[i].isAbstract)
        BASE(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, UA_TYPES_VARIABLETYPEATTRIBUTES, a->isAbstract = ns0Nodes[i].isAbstract)
        BASE(UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, UA_TYPES_REFERENCETYPEATTRIBUTES, a->isAbstract = ns0Nodes[i].isAbstract; a->symmetric = ns0Nodes[i].symmetric)
        BASE(UA_NODECLASS_DATATYPE, UA_DataTypeAttributes, UA_TYPES_DATATYPEATTRIBUTES, a->isAbstract = ns0Nodes[i].isAbstract)
        BASE(UA_NODECLASS_VIEW, UA_ViewAttributes, UA_TYPES_VIEWATTRIBUTES, )
        default: break;
        }
        insert(s, n);
    }
    for(size_t i = 0; i < sizeof(ns0Refs) / sizeof(ns0Refs[0]); i++) {
        UA_NodeId a = UA_NODEID_NUMERIC(0, ns0Refs[i].source), b = UA_NODEID_NUMERIC(0, ns0Refs[i].target), rt = UA_NODEID_NUMERIC(0, ns0Refs[i].refType);
        ShimNode *na = find(s, &a), *nb = find(s, &b);
        if(!na || !nb) continue;
        pushRef(na, &rt, &b, true); pushRef(nb, &rt, &a, false);
    }
    return s;
}
UA_StatusCode UA_Server_delete(UA_Server *s) {
    if(!s) return UA_STATUSCODE_GOOD;
    for(size_t i = 0; i < s->nodesSize; i++) freeNode(s->nodes[i]);
    free(s->nodes);
    for(size_t i = 0; i < s->nsSize; i++) UA_String_clear(&s->ns[i]);
    free(s->ns); free(s->config.logging); free(s);
    return UA_STATUSCODE_GOOD;
}
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return &s->config; }
UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *c) { (void)c; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_ServerConfig_setMinimal(UA_ServerConfig *c, UA_UInt16 p, const UA_ByteString *cert) { (void)c; (void)p; (void)cert; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_run(UA_Server *s, const volatile UA_Boolean *r) { (void)s; (void)r; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_run_startup(UA_Server *s) { (void)s; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_run_shutdown(UA_Server *s) { (void)s; return UA_STATUSCODE_GOOD; }
UA_UInt16 UA_Server_run_iterate(UA_Server *s, UA_Boolean w) { (void)s; (void)w; return 0; }

UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    UA_String n = UA_STRING((char *)(uintptr_t)name);
    for(size_t i = 0; i < s->nsSize; i++) if(UA_String_equal(&s->ns[i], &n)) return (UA_UInt16)i;
    addNs(s, name);
    return (UA_UInt16)(s->nsSize - 1);
}
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *s, const UA_String uri, size_t *idx) {
    for(size_t i = 0; i < s->nsSize; i++) if(UA_String_equal(&s->ns[i], &uri)) { *idx = i; return UA_STATUSCODE_GOOD; }
    return UA_STATUSCODE_BADNOTFOUND;
}
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *s, const size_t i, UA_String *out) {
    if(i >= s->nsSize) return UA_STATUSCODE_BADNOTFOUND;
    return UA_String_copy(&s->ns[i], out);
}
const UA_DataType *UA_Server_findDataType(UA_Server *s, const UA_NodeId *id) { return UA_findDataTypeWithCustom(id, s->config.customDataTypes); }

/* ---------- AddNodes ---------- */
static int isTypeClass(UA_NodeClass c) {
    return c == UA_NODECLASS_OBJECTTYPE || c == UA_NODECLASS_VARIABLETYPE || c == UA_NODECLASS_REFERENCETYPE || c == UA_NODECLASS_DATATYPE;
}
static UA_StatusCode checkParent(UA_Server *s, UA_NodeClass nc, const UA_NodeId *parent, const UA_NodeId *rt) {
    if((nc == UA_NODECLASS_OBJECT || nc == UA_NODECLASS_VARIABLE) && UA_NodeId_isNull(parent) && UA_NodeId_isNull(rt)) return UA_STATUSCODE_GOOD;
    ShimNode *p = find(s, parent);
    if(!p) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
    ShimNode *r = find(s, rt);
    if(!r || r->nodeClass != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    if(((UA_ReferenceTypeAttributes *)r->attr)->isAbstract) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
    if(isTypeClass(nc)) {
        const UA_NodeId sub = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
        if(!UA_NodeId_equal(rt, &sub)) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
        if(p->nodeClass != nc) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
        return UA_STATUSCODE_GOOD;
    }
    const UA_NodeId h = UA_NODEID_NUMERIC(0, UA_NS0ID_HIERARCHICALREFERENCES);
    return subtypeOf(s, rt, &h) ? UA_STATUSCODE_GOOD : UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass nc, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId refType,
    const UA_QualifiedName bn, const UA_NodeId typeDef, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    if(id.namespaceIndex >= s->nsSize) return UA_STATUSCODE_BADNODEIDINVALID;
    if(UA_NodeId_isNull(&id)) return UA_STATUSCODE_BADNODEIDINVALID; /* generated ids are not supported by the stand-in */
    if(find(s, &id)) return UA_STATUSCODE_BADNODEIDEXISTS;
    UA_NodeId rt = refType;
    if(isTypeClass(nc) && UA_NodeId_isNull(&rt)) rt = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
    UA_StatusCode rc = checkParent(s, nc, &parent, &rt);
    if(rc != UA_STATUSCODE_GOOD) return rc;
    UA_NodeId td = typeDef;
    if(nc == UA_NODECLASS_OBJECT || nc == UA_NODECLASS_VARIABLE) {
        if(UA_NodeId_isNull(&td)) td = UA_NODEID_NUMERIC(0, nc == UA_NODECLASS_OBJECT ? UA_NS0ID_BASEOBJECTTYPE : UA_NS0ID_BASEDATAVARIABLETYPE);
        ShimNode *t = find(s, &td);
        if(!t || t->nodeClass != (nc == UA_NODECLASS_OBJECT ? UA_NODECLASS_OBJECTTYPE : UA_NODECLASS_VARIABLETYPE)) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    }
    ShimNode *n = (ShimNode *)calloc(1, sizeof(*n));
    UA_NodeId_copy(&id, &n->id); n->nodeClass = nc; UA_QualifiedName_copy(&bn, &n->browseName);
    n->attr = calloc(1, at->memSize); n->attrType = at; UA_copy(attr, n->attr, at); n->context = ctx;
    insert(s, n);
    ShimNode *p = find(s, &parent);
    if(p && !UA_NodeId_isNull(&parent)) { pushRef(n, &rt, &parent, false); pushRef(p, &rt, &id, true); }
    if(nc == UA_NODECLASS_OBJECT || nc == UA_NODECLASS_VARIABLE) {
        const UA_NodeId htd = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
        ShimNode *t = find(s, &td);
        pushRef(n, &htd, &td, true); pushRef(t, &htd, &id, false);
    }
    if(out) UA_NodeId_copy(&id, out);
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) {
    ShimNode *n = find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; n->finished = true; return UA_STATUSCODE_GOOD;
}
UA_StatusCode shim_addTyped(UA_Server *s, UA_NodeClass nc, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt,
    const UA_QualifiedName bn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    UA_StatusCode rc = UA_Server_addNode_begin(s, nc, id, parent, rt, bn, td, attr, at, ctx, out);
    return rc == UA_STATUSCODE_GOOD ? UA_Server_addNode_finish(s, id) : rc;
}
UA_StatusCode UA_Server_deleteNode(UA_Server *s, const UA_NodeId id, UA_Boolean dr) {
    (void)dr; ShimNode *n = find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; removeNode(s, n); return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId rt, const UA_ExpandedNodeId target, UA_Boolean fwd) {
    ShimNode *r = find(s, &rt);
    if(!r || r->nodeClass != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    ShimNode *a = find(s, &src), *b = find(s, &target.nodeId);
    if(!a) return UA_STATUSCODE_BADSOURCENODEIDINVALID;
    if(!b) return UA_STATUSCODE_BADTARGETNODEIDINVALID;
    if(hasRef(a, &rt, &b->id, fwd)) return UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED;
    pushRef(a, &rt, &b->id, fwd);
    if(!hasRef(b, &rt, &a->id, !fwd)) pushRef(b, &rt, &a->id, !fwd);
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Server_deleteReference(UA_Server *s, const UA_NodeId src, const UA_NodeId rt, UA_Boolean fwd, const UA_ExpandedNodeId target, UA_Boolean bidir) {
    for(int k = 0; k < (bidir ? 2 : 1); k++) {
        ShimNode *n = find(s, k ? &target.nodeId : &src); const UA_NodeId *t = k ? &src : &target.nodeId; UA_Boolean f = k ? !fwd : fwd;
        if(!n) continue;
        for(size_t i = 0; i < n->refsSize; i++)
            if(n->refs[i].isForward == f && UA_NodeId_equal(&n->refs[i].refType, &rt) && UA_NodeId_equal(&n->refs[i].target, t)) {
                UA_NodeId_clear(&n->refs[i].refType); UA_NodeId_clear(&n->refs[i].target);
                memmove(&n->refs[i], &n->refs[i + 1], (n->refsSize - i - 1) * sizeof(ShimRef)); n->refsSize--; break;
            }
    }
    return UA_STATUSCODE_GOOD;
}

/* ---------- Browse ---------- */
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    UA_BrowseResult br; memset(&br, 0, sizeof(br));
    ShimNode *n = find(s, &bd->nodeId);
    if(!n) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    br.references = n->refsSize ? (UA_ReferenceDescription *)calloc(n->refsSize, sizeof(UA_ReferenceDescription)) : NULL;
    for(size_t i = 0; i < n->refsSize; i++) {
        const ShimRef *r = &n->refs[i];
        if(bd->browseDirection == UA_BROWSEDIRECTION_FORWARD && !r->isForward) continue;
        if(bd->browseDirection == UA_BROWSEDIRECTION_INVERSE && r->isForward) continue;
        if(!UA_NodeId_isNull(&bd->referenceTypeId)) {
            if(bd->includeSubtypes ? !subtypeOf(s, &r->refType, &bd->referenceTypeId) : !UA_NodeId_equal(&r->refType, &bd->referenceTypeId)) continue;
        }
        ShimNode *t = find(s, &r->target);
        if(!t || (bd->nodeClassMask && !(bd->nodeClassMask & (UA_UInt32)t->nodeClass))) continue;
        if(max && br.referencesSize >= max) {
            br.continuationPoint = UA_BYTESTRING_ALLOC("more"); /* browseNext is not supported: callers see the first `max` only */
            break;
        }
        UA_ReferenceDescription *d = &br.references[br.referencesSize++];
        UA_NodeId_copy(&r->refType, &d->referenceTypeId); d->isForward = r->isForward;
        UA_NodeId_copy(&t->id, &d->nodeId.nodeId); d->nodeClass = t->nodeClass;
        UA_QualifiedName_copy(&t->browseName, &d->browseName);
    }
    if(br.referencesSize == 0) { free(br.references); br.references = NULL; }
    return br;
}

/* ---------- reads ---------- */
UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *out) {
    ShimNode *n = find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; *out = n->nodeClass; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *out) {
    ShimNode *n = find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; return UA_QualifiedName_copy(&n->browseName, out); }
#define GET ShimNode *n = find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN;
#define FROM(CLASS, T, CODE) if(n->nodeClass == CLASS) { const T *a = (const T *)n->attr; (void)a; CODE; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_readDisplayName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out) {
    GET return UA_LocalizedText_copy(&((const UA_ObjectAttributes *)n->attr)->displayName, out); } /* common prefix of all attribute structs */
UA_StatusCode UA_Server_readDescription(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out) {
    GET return UA_LocalizedText_copy(&((const UA_ObjectAttributes *)n->attr)->description, out); }
UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    GET FROM(UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes, *out = a->isAbstract) FROM(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, *out = a->isAbstract)
    FROM(UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, *out = a->isAbstract) FROM(UA_NODECLASS_DATATYPE, UA_DataTypeAttributes, *out = a->isAbstract)
    return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readSymmetric(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    GET FROM(UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, *out = a->symmetric) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readInverseName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *out) {
    GET FROM(UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, return UA_LocalizedText_copy(&a->inverseName, out)) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readEventNotifier(UA_Server *s, const UA_NodeId id, UA_Byte *out) {
    GET FROM(UA_NODECLASS_OBJECT, UA_ObjectAttributes, *out = a->eventNotifier) FROM(UA_NODECLASS_VIEW, UA_ViewAttributes, *out = a->eventNotifier) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readContainsNoLoop(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    GET FROM(UA_NODECLASS_VIEW, UA_ViewAttributes, *out = a->containsNoLoops) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readContainsNoLoops(UA_Server *s, const UA_NodeId id, UA_Boolean *out) { return UA_Server_readContainsNoLoop(s, id, out); }
UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *out) {
    memset(out, 0, sizeof(*out));
    if(id.namespaceIndex == 0 && id.identifierType == UA_NODEIDTYPE_NUMERIC && id.identifier.numeric == UA_NS0ID_SERVER_NAMESPACEARRAY)
        return UA_Variant_setArrayCopy(out, s->ns, s->nsSize, &UA_TYPES[UA_TYPES_STRING]);
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, return UA_Variant_copy(&a->value, out)) FROM(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, return UA_Variant_copy(&a->value, out)) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readDataType(UA_Server *s, const UA_NodeId id, UA_NodeId *out) {
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, return UA_NodeId_copy(&a->dataType, out)) FROM(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, return UA_NodeId_copy(&a->dataType, out)) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readValueRank(UA_Server *s, const UA_NodeId id, UA_Int32 *out) {
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, *out = a->valueRank) FROM(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, *out = a->valueRank) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readArrayDimensions(UA_Server *s, const UA_NodeId id, UA_Variant *out) {
    memset(out, 0, sizeof(*out));
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, return UA_Variant_setArrayCopy(out, a->arrayDimensions, a->arrayDimensionsSize, &UA_TYPES[UA_TYPES_UINT32]))
    FROM(UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, return UA_Variant_setArrayCopy(out, a->arrayDimensions, a->arrayDimensionsSize, &UA_TYPES[UA_TYPES_UINT32])) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readAccessLevel(UA_Server *s, const UA_NodeId id, UA_Byte *out) {
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, *out = a->accessLevel) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readMinimumSamplingInterval(UA_Server *s, const UA_NodeId id, UA_Double *out) {
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, *out = a->minimumSamplingInterval) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readHistorizing(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    GET FROM(UA_NODECLASS_VARIABLE, UA_VariableAttributes, *out = a->historizing) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readExecutable(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    GET FROM(UA_NODECLASS_METHOD, UA_MethodAttributes, *out = a->executable) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant value) {
    GET if(n->nodeClass != UA_NODECLASS_VARIABLE) return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    UA_VariableAttributes *a = (UA_VariableAttributes *)n->attr; UA_Variant_clear(&a->value); return UA_Variant_copy(&value, &a->value); }
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **ctx) { GET *ctx = n->context; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_setNodeContext(UA_Server *s, UA_NodeId id, void *ctx) { GET n->context = ctx; return UA_STATUSCODE_GOOD; }

/* ---------- inspection ---------- */
size_t shim_nodeCount(UA_Server *s) { return s->nodesSize; }
const ShimNode *shim_nodeAt(UA_Server *s, size_t i) { return s->nodes[i]; }
const ShimNode *shim_findNode(UA_Server *s, const UA_NodeId *id) { return find(s, id); }
size_t shim_namespaceCount(UA_Server *s) { return s->nsSize; }
UA_String shim_namespaceAt(UA_Server *s, size_t i) { return s->ns[i]; }
