/* libFuzzer target: first byte = options, rest = one or two files; import, sort, iterate and read everything, delete */
#define _GNU_SOURCE
#include <NodesetLoader/NodesetLoader.h>
#include <libxml/xmlerror.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
static unsigned long sink;
static void rd(const char *s) { if (s) while (*s) sink += (unsigned char)*s++; }
static void rdId(const UA_NodeId *id) { if (id->identifierType == UA_NODEIDTYPE_STRING || id->identifierType == UA_NODEIDTYPE_BYTESTRING) for (size_t i = 0; i < id->identifier.string.length; i++) sink += id->identifier.string.data[i]; else sink += id->identifier.numeric; }
static void rdRefs(const NL_Reference *r) { for (; r; r = r->next) { rdId(&r->refType); rdId(&r->target); sink += r->isForward; } }
static void rdData(const NL_Data *d, int lvl) { if (!d) return; rd(d->name); if (d->type == DATATYPE_PRIMITIVE) rd(d->val.primitiveData.value); else for (size_t i = 0; i < d->val.complexData.membersSize; i++) rdData(d->val.complexData.members[i], lvl + 1); }
static void node(void *ctx, NL_Node *n) {
    rdId(&n->id); rd(n->browseName.name); rd(n->displayName.text); rd(n->displayName.locale); rd(n->description.text); rd(n->description.locale);
    rdRefs(n->hierachicalRefs); rdRefs(n->nonHierachicalRefs); rdRefs(n->unknownRefs); if (n->extension) sink += *(char *)n->extension;
    switch (n->nodeClass) {
    case NODECLASS_OBJECT: rd(((NL_ObjectNode *)n)->eventNotifier); rdRefs(((NL_ObjectNode *)n)->refToTypeDef); rdId(&((NL_ObjectNode *)n)->parentNodeId); break;
    case NODECLASS_OBJECTTYPE: rd(((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *v = (NL_VariableTypeNode *)n; rd(v->isAbstract); rdId(&v->datatype); rd(v->arrayDimensions); rd(v->valueRank); break; }
    case NODECLASS_VARIABLE: { NL_VariableNode *v = (NL_VariableNode *)n; rdId(&v->datatype); rd(v->arrayDimensions); rd(v->valueRank); rd(v->accessLevel); rd(v->userAccessLevel); rd(v->historizing); rd(v->minimumSamplingInterval); rdRefs(v->refToTypeDef); rdId(&v->parentNodeId);
        if (v->value) { rd(v->value->type); sink += v->value->isArray + v->value->isExtensionObject; rdData(v->value->data, 0); } break; }
    case NODECLASS_DATATYPE: { NL_DataTypeNode *d = (NL_DataTypeNode *)n; rd(d->isAbstract); if (d->definition) for (size_t i = 0; i < d->definition->fieldCnt; i++) { NL_DataTypeDefinitionField *f = &d->definition->fields[i]; rd(f->name); rdId(&f->dataType); sink += (unsigned)f->valueRank + (unsigned)f->value + f->isOptional; } break; }
    case NODECLASS_METHOD: rd(((NL_MethodNode *)n)->executable); rd(((NL_MethodNode *)n)->userExecutable); break;
    case NODECLASS_REFERENCETYPE: rd(((NL_ReferenceTypeNode *)n)->symmetric); rd(((NL_ReferenceTypeNode *)n)->inverseName.text); rd(((NL_ReferenceTypeNode *)n)->inverseName.locale); break;
    case NODECLASS_VIEW: rd(((NL_ViewNode *)n)->containsNoLoops); rd(((NL_ViewNode *)n)->eventNotifier); break;
    default: abort();
    }
    (void)ctx;
}
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *f, ...) { char b[256]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); (void)c; (void)l; rd(b); }
static unsigned short ns(void *c, const char *u) { rd(u); return (unsigned short)(++*(int *)c); }
static char *objs[4096]; static int on;
static void *xnew(void) { char *p = (char *)calloc(1, 8); if (on < 4096) objs[on++] = p; return p; }
static void xstart(void *o, const char *n, int k, const char **a) { if (o) *(char *)o += 1; rd(n); for (int i = 0; i < k; i++) { rd(a[i*5]); rd(a[i*5+1]); rd(a[i*5+2]); for (const char *p = a[i*5+3]; p < a[i*5+4]; p++) sink += (unsigned char)*p; } }
static void xend(void *o, const char *n, const char *v) { if (o) *(char *)o += 1; rd(n); rd(v); }
static void xfin(void *o) { if (o) *(char *)o += 1; }
static NodesetLoader_ExtensionInterface ext = {NULL, xnew, xstart, xend, xfin};
static void quiet(void *c, const char *m, ...) { (void)c; (void)m; }
int LLVMFuzzerInitialize(int *c, char ***v) { (void)c; (void)v; xmlSetGenericErrorFunc(NULL, quiet); return 0; }
static bool imp(NodesetLoader *l, const uint8_t *d, size_t n, int useExt) {
    static int fd = -1; static char path[64]; static int cnt;
    if (fd < 0) { fd = memfd_create("f", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
    if (ftruncate(fd, 0) || pwrite(fd, d, n, 0) != (ssize_t)n) return false;
    cnt = 0; NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.userContext = &cnt; fc.file = path; fc.addNamespace = ns; fc.extensionHandling = useExt ? &ext : NULL;
    return NodesetLoader_importFile(l, &fc);
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 1) return 0;
    unsigned o = d[0]; d++; n--;
    NodesetLoader_Logger logger = {NULL, lg};
    NodesetLoader *l = NodesetLoader_new(&logger, NULL);
    const uint8_t *cut = (o & 4) && n > 9 ? (const uint8_t *)memmem(d, n, "\n#SPLIT#\n", 9) : NULL;
    size_t first = cut ? (size_t)(cut - d) : n;
    imp(l, d, first, o & 1);
    if (o & 8) NodesetLoader_sort(l);
    if (cut) imp(l, cut + 9, n - first - 9, o & 1);
    if (!(o & 2)) NodesetLoader_sort(l);
    if (o & 16) NodesetLoader_sort(l);
    for (int k = 0; k < NL_NODECLASS_COUNT; k++) NodesetLoader_forEachNode(l, (NL_NodeClass)k, NULL, node);
    for (const NL_BiDirectionalReference *b = NodesetLoader_getBidirectionalRefs(l); b; b = b->next) { rdId(&b->source); rdId(&b->target); rdId(&b->refType); }
    NodesetLoader_delete(l);
    for (int i = 0; i < on; i++) free(objs[i]); on = 0;
    xmlResetLastError();
    return 0;
}
#include "mutator.h"
