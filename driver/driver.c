/* Executes scripts against the code under test and prints what the public API reports as JSON.
 *
 * Protocol on stdin: "<length>\n<script>"; for every request one child is forked.  The answer on stdout is a
 * header line "<wait status> <json bytes> <stdout bytes> <stderr bytes>\n" followed by the three byte blocks:
 * the results of the commands, whatever the code under test wrote to stdout, and (sanitizer) messages on stderr.
 */
#define _GNU_SOURCE
#include <NodesetLoader/NodesetLoader.h>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <open62541/server.h>
#include "CharAllocator.h"
#if __has_include("InternalLogger.h")
#include "InternalLogger.h"
#endif
NodesetLoader_Logger *InternalLogger_new(void) __attribute__((weak));
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
#include <libxml/xmlerror.h>
#include <dirent.h>
#include <locale.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <malloc.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

/* ------------------------------------------------------------------ allocation ledger */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); char *__real_strdup(const char *);
static int inApi = 0;
typedef struct { void *p; size_t n; } Led;
static Led *led; static size_t ledCap, ledUsed, ledLive; /* open addressing, tombstone p==(void*)1 */
static size_t ledHash(void *p) { return ((uintptr_t)p >> 4) * 11400714819323198485ull; }
#define PRE 4
static size_t ledBase; static int preGone;
static void ledPut(void *p, size_t n);
static void ledGrow(void) {
    Led *old = led; size_t oc = ledCap;
    ledCap = ledCap ? ledCap * 2 : 1 << 14; ledUsed = 0; ledLive = 0;
    led = (Led *)__real_calloc(ledCap, sizeof(Led));
    for (size_t i = 0; i < oc; i++) if (old[i].p > (void *)1) ledPut(old[i].p, old[i].n);
    __real_free(old);
}
static void ledPut(void *p, size_t n) {
    if ((ledUsed + 1) * 2 > ledCap) ledGrow();
    size_t i = ledHash(p) & (ledCap - 1);
    while (led[i].p > (void *)1) i = (i + 1) & (ledCap - 1);
    if (!led[i].p) ledUsed++;
    led[i].p = p; led[i].n = n; ledLive++;
}
static int ledDel(void *p) {
    if (!ledCap) return 0;
    size_t i = ledHash(p) & (ledCap - 1);
    while (led[i].p) { if (led[i].p == p) { led[i].p = (void *)1; ledLive--; return 1; } i = (i + 1) & (ledCap - 1); }
    return 0;
}
/* fresh memory is never zero by accident */
#define DIRT 0xA5
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && inApi) { ledPut(p, n); memset(p, DIRT, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p && inApi) ledPut(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) {
    int known = o ? ledDel(o) : 0;
    size_t had = o ? malloc_usable_size(o) : 0;
    void *p = __real_realloc(o, n);
    if (p && (inApi || known)) { ledPut(p, n); if (n > had) memset((char *)p + had, DIRT, n - had); }
    return p;
}
void __wrap_free(void *p) { if (p) ledDel(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p && inApi) ledPut(p, strlen(s) + 1); return p; }

/* ------------------------------------------------------------------ read errors */
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
static long long ioFail = -1; static unsigned long ioShort, ioHits;
typedef struct { FILE *f; long long left; } IoCookie;
static ssize_t ioRead(void *c, char *b, size_t n) {
    IoCookie *k = (IoCookie *)c;
    if (k->left == 0) { ioHits++; errno = EIO; return -1; }
    if (n > (size_t)k->left) n = (size_t)k->left;
    if (ioShort && n > ioShort) n = ioShort;
    size_t g = fread(b, 1, n, k->f);
    k->left -= (long long)g;
    if (g == 0) { k->left = 0; ioHits++; errno = EIO; return -1; } /* instead of the end of the file */
    return (ssize_t)g;
}
static int ioClose(void *c) { int r = fclose(((IoCookie *)c)->f); __real_free(c); return r; }
static FILE *ioOpen(FILE *f, const char *m) {
    if (!f || !inApi || ioFail < 0 || m[0] != 'r') return f;
    cookie_io_functions_t io = {ioRead, NULL, NULL, ioClose};
    IoCookie *k = (IoCookie *)__real_malloc(sizeof *k); k->f = f; k->left = ioFail;
    return fopencookie(k, "r", io);
}
FILE *__wrap_fopen(const char *p, const char *m) { return ioOpen(__real_fopen(p, m), m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return ioOpen(__real_fopen64(p, m), m); }
#define API(stmt) do { inApi++; stmt; inApi--; } while (0)

/* ------------------------------------------------------------------ JSON output */
static char *ob; static size_t obn, obc;
static void outN(const char *s, size_t n) {
    if (obn + n + 1 > obc) { obc = (obn + n + 1) * 2 + 4096; ob = (char *)__real_realloc(ob, obc); }
    memcpy(ob + obn, s, n); obn += n;
}
static void out(const char *f, ...) {
    char b[512]; va_list v; va_start(v, f); int n = vsnprintf(b, sizeof b, f, v); va_end(v); outN(b, (size_t)n);
}
static int comma[4096], depth;
static void sep(void) { if (comma[depth]) outN(",", 1); comma[depth] = 1; }
static void op(const char *k, char c) { sep(); if (k) out("\"%s\":", k); outN(&c, 1); depth++; comma[depth] = 0; }
static void cl(char c) { depth--; outN(&c, 1); }
static void jraw(const char *s, size_t n) {
    outN("\"", 1);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { char x[2] = {'\\', (char)c}; outN(x, 2); }
        else if (c < 0x20 || c == 0x7f) out("\\u%04x", c);
        else outN((char *)&c, 1);
    }
    outN("\"", 1);
}
static void key(const char *k) { sep(); if (k) out("\"%s\":", k); }
static void js(const char *k, const char *s) { key(k); if (s) jraw(s, strlen(s)); else outN("null", 4); }
static void jsn(const char *k, const void *s, size_t n) { key(k); jraw((const char *)s, n); }
static void ji(const char *k, long long v) { key(k); out("%lld", v); }
static void ju(const char *k, unsigned long long v) { key(k); out("%llu", v); }
static void jb(const char *k, int v) { key(k); out(v ? "true" : "false"); }
static void jnull(const char *k) { key(k); outN("null", 4); }
static void hexOut(char *d, const UA_Byte *s, size_t n) { for (size_t i = 0; i < n; i++) sprintf(d + 2 * i, "%02x", s[i]); d[2*n] = 0; }
/* "<ns>;i=<n>" "<ns>;s=<text>" "<ns>;g=<32 hex>" "<ns>;b=<hex>" */
static char *idText(const UA_NodeId *id, size_t *len) {
    char h[64];
    snprintf(h, sizeof h, "%u;", id->namespaceIndex);
    size_t cap = 128 + 2 * ((id->identifierType == UA_NODEIDTYPE_STRING || id->identifierType == UA_NODEIDTYPE_BYTESTRING) ? id->identifier.string.length : 0);
    char *b = (char *)__real_malloc(cap); size_t n = 0;
    n = (size_t)snprintf(b, cap, "%s", h);
    switch (id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: n += (size_t)snprintf(b + n, cap - n, "i=%u", id->identifier.numeric); break;
    case UA_NODEIDTYPE_STRING: memcpy(b + n, "s=", 2); n += 2; if (id->identifier.string.length) memcpy(b + n, id->identifier.string.data, id->identifier.string.length); n += id->identifier.string.length; break;
    case UA_NODEIDTYPE_GUID: { UA_Guid g = id->identifier.guid; n += (size_t)snprintf(b + n, cap - n, "g=%08x%04x%04x", g.data1, g.data2, g.data3); for (int i = 0; i < 8; i++) n += (size_t)snprintf(b + n, cap - n, "%02x", g.data4[i]); break; }
    case UA_NODEIDTYPE_BYTESTRING: memcpy(b + n, "b=", 2); n += 2; hexOut(b + n, id->identifier.byteString.data, id->identifier.byteString.length); n += 2 * id->identifier.byteString.length; break;
    default: n += (size_t)snprintf(b + n, cap - n, "?%d", (int)id->identifierType);
    }
    b[n] = 0; *len = n; return b;
}
static void jid(const char *k, const UA_NodeId *id) { size_t n; char *b = idText(id, &n); key(k); jraw(b, n); __real_free(b); }
static void jstr(const char *k, const UA_String *s) { if (!s->data && !s->length) { jnull(k); return; } jsn(k, s->length ? (char *)s->data : "", s->length); }

/* ------------------------------------------------------------------ registers */
#define MAXR 64
typedef struct { int level; char *msg; } Msg;
typedef struct { Msg *m; size_t n; } MsgList;
typedef struct { NodesetLoader *l; NodesetLoader_Logger logger; MsgList msgs; int used; } LReg;
static LReg L[MAXR];
typedef struct { UA_Server *s; UA_Logger *origLogger; UA_Logger logger; MsgList msgs; uint64_t *baseHash; size_t *baseRefs; size_t baseN; } SReg;
static SReg S[MAXR];
typedef struct { char *uri; unsigned idx; } NsEnt;
typedef struct { NsEnt e[4096]; size_t n; unsigned next; } NsTable;
static NsTable T[8];
static void msgAdd(MsgList *l, int level, const char *f, va_list v) {
    int sv = inApi; inApi = 0;
    char *m = NULL; int n = vasprintf(&m, f ? f : "(null format)", v); if (n < 0) m = NULL;
    l->m = (Msg *)__real_realloc(l->m, (l->n + 1) * sizeof(Msg)); l->m[l->n].level = level; l->m[l->n].msg = m; l->n++;
    inApi = sv;
}
static void capLog(void *ctx, enum NodesetLoader_LogLevel level, const char *f, ...) {
    va_list v; va_start(v, f); msgAdd((MsgList *)ctx, (int)level, f, v); va_end(v);
}
static void capUaLog(void *ctx, UA_LogLevel level, UA_LogCategory cat, const char *f, va_list v) { (void)cat; msgAdd((MsgList *)ctx, (int)level, f, v); }
static void msgsOut(const char *k, MsgList *l) {
    op(k, '['); for (size_t i = 0; i < l->n; i++) { op(NULL, '['); ji(NULL, l->m[i].level); js(NULL, l->m[i].msg); cl(']'); } cl(']');
    l->n = 0;
}
/* namespace callback: remembers what it was called with */
typedef struct { int table; int magic; char **uris; size_t n; int badCtx, cb; } ImpCtx;
static ImpCtx *curImp;
static unsigned nsIndex(NsTable *t, const char *uri) {
    for (size_t i = 0; i < t->n; i++) if (!strcmp(t->e[i].uri, uri)) return t->e[i].idx;
    t->e[t->n].uri = strdup(uri); t->e[t->n].idx = t->next++; return t->e[t->n++].idx;
}
static unsigned short nsCall(int cb, void *ctx, const char *uri) {
    int sv = inApi; inApi = 0;
    if (!curImp) abort();
    if (curImp->cb != cb || ctx != curImp) curImp->badCtx = 1;
    curImp->uris = (char **)__real_realloc(curImp->uris, (curImp->n + 1) * sizeof(char *));
    curImp->uris[curImp->n++] = uri ? strdup(uri) : NULL;
    unsigned r = nsIndex(&T[curImp->table], uri ? uri : "");
    inApi = sv; return (unsigned short)r;
}
/* every import gets another function and another extension handler than the one before it */
static unsigned short nsCb0(void *ctx, const char *uri) { return nsCall(0, ctx, uri); }
static unsigned short nsCb1(void *ctx, const char *uri) { return nsCall(1, ctx, uri); }
static unsigned short nsCb2(void *ctx, const char *uri) { return nsCall(2, ctx, uri); }
static unsigned short (*const nsCbs[3])(void *, const char *) = {nsCb0, nsCb1, nsCb2};
static int callNo;
/* reference service given by the caller: svc K (id class known|learned)* ; class h n t u or several */
typedef struct { char *id; char cls[4]; int known, added; } SvcEnt;
typedef struct { int magic; SvcEnt *e; size_t n; char **added; size_t addedN; int bad, badRef; } Svc;
static Svc svcs[4]; static NL_ReferenceService *svcIf[4];
static SvcEnt *svcFind(Svc *v, const UA_NodeId *id) {
    size_t n; char *b = idText(id, &n); SvcEnt *r = NULL;
    for (size_t i = 0; i < v->n && !r; i++) if (!strcmp(v->e[i].id, b)) r = &v->e[i];
    __real_free(b); return r;
}
static bool svcIs(void *ctx, const NL_Reference *ref, char c) {
    int sv = inApi; inApi = 0; bool r = false; Svc *v = (Svc *)ctx;
    if (!v || v->magic != 4712) { svcs[0].bad = 1; inApi = sv; return false; }
    SvcEnt *e = svcFind(v, &ref->refType); r = e && e->known && strchr(e->cls, c);
    inApi = sv; return r;
}
static bool svcH(void *c, const NL_Reference *r) { return svcIs(c, r, 'h'); }
static bool svcN(void *c, const NL_Reference *r) { return svcIs(c, r, 'n'); }
static bool svcT(void *c, const NL_Reference *r) { return svcIs(c, r, 't'); }
static void svcAdd(void *ctx, const NL_ReferenceTypeNode *node) {
    int sv = inApi; inApi = 0; Svc *v = (Svc *)ctx; size_t n;
    if (!v || v->magic != 4712) { svcs[0].bad = 1; inApi = sv; return; }
    v->added = (char **)__real_realloc(v->added, (v->addedN + 1) * sizeof(char *)); v->added[v->addedN++] = idText(&node->id, &n);
    if (node->nodeClass != NODECLASS_REFERENCETYPE) v->badRef = 1;
    for (const NL_Reference *r = node->hierachicalRefs; r; r = r->next) { char *b = idText(&r->target, &n); __real_free(b); }
    SvcEnt *e = svcFind(v, &node->id); if (e) e->known = 1;
    inApi = sv;
}
static void svcNew(int k, char **a, int n) {
    Svc *v = &svcs[k]; memset(v, 0, sizeof *v); v->magic = 4712;
    for (int i = 0; i + 2 < n; i += 3) {
        v->e = (SvcEnt *)__real_realloc(v->e, (v->n + 1) * sizeof(SvcEnt)); SvcEnt *e = &v->e[v->n++];
        e->id = strdup(a[i]); snprintf(e->cls, sizeof e->cls, "%s", a[i + 1]); e->known = a[i + 2][0] == 'k'; e->added = 0;
    }
    NL_ReferenceService *f = svcIf[k] = (NL_ReferenceService *)__real_calloc(1, sizeof *f);
    f->context = v; f->isHierachicalRef = svcH; f->isNonHierachicalRef = svcN; f->isHasTypeDefRef = svcT; f->addNewReferenceType = svcAdd;
}
/* extension handler */
typedef struct { int id, h; } ExtObj;
static int extNext, curExt = -1;
typedef struct { char kind; int obj; char *name; char *val; int nattr; char **attr; } ExtEv; /* attr: local, prefix, uri, value */
static ExtEv *ev; static size_t evn;
static ExtObj *extObjs[1 << 16]; static int extSeen;
static ExtEv *evAdd(char kind, void *obj) {
    ev = (ExtEv *)__real_realloc(ev, (evn + 1) * sizeof(ExtEv)); memset(&ev[evn], 0, sizeof(ExtEv));
    ev[evn].kind = kind; ev[evn].obj = -1;
    for (int i = 0; i < extSeen; i++) if (extObjs[i] == obj) ev[evn].obj = i;
    return &ev[evn++];
}
static char *dup0(const char *s) { return s ? strdup(s) : NULL; }
/* a handler other than that of this file, or given another handler's object: an event of its own */
static void extCheck(int h, void *o) { int bad = h != curExt; for (int i = 0; i < extSeen; i++) if (extObjs[i] == o && extObjs[i]->h != h) bad = 1; if (bad) evAdd('X', o); }
static void *extNew(int h) { int sv = inApi; inApi = 0; ExtObj *o = (ExtObj *)__real_malloc(sizeof *o); o->id = extNext++; o->h = h; if (h != curExt) evAdd('X', NULL); if (extSeen < (1 << 16)) extObjs[extSeen++] = o; evAdd('n', o); inApi = sv; return o; }
static void extStart(int h, void *o, const char *name, int n, const char **a) {
    int sv = inApi; inApi = 0; extCheck(h, o); ExtEv *e = evAdd('s', o); e->name = dup0(name); e->nattr = n; e->attr = (char **)__real_calloc((size_t)n * 4 + 1, sizeof(char *));
    for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) e->attr[i*4+j] = dup0(a[i*5+j]); e->attr[i*4+3] = strndup(a[i*5+3], (size_t)(a[i*5+4] - a[i*5+3])); }
    inApi = sv; }
static void extEnd(int h, void *o, const char *name, const char *val) { int sv = inApi; inApi = 0; extCheck(h, o); ExtEv *e = evAdd('e', o); e->name = dup0(name); e->val = dup0(val); inApi = sv; }
static void extFinish(int h, void *o) { int sv = inApi; inApi = 0; extCheck(h, o); evAdd('f', o); inApi = sv; }
#define EXTIF(H) \
    static void *extNew##H(void) { return extNew(H); } \
    static void extStart##H(void *o, const char *name, int n, const char **a) { extStart(H, o, name, n, a); } \
    static void extEnd##H(void *o, const char *name, const char *val) { extEnd(H, o, name, val); } \
    static void extFinish##H(void *o) { extFinish(H, o); }
EXTIF(0) EXTIF(1) EXTIF(2)
static NodesetLoader_ExtensionInterface extIfs[3] = {{NULL, extNew0, extStart0, extEnd0, extFinish0}, {NULL, extNew1, extStart1, extEnd1, extFinish1}, {NULL, extNew2, extStart2, extEnd2, extFinish2}};
static NodesetLoader_ExtensionInterface *extPick(int on) { curExt = on ? callNo % 3 : -1; return on ? &extIfs[curExt] : NULL; }
static int extId(const void *p) { if (!p) return -1; for (int i = 0; i < extSeen; i++) if (extObjs[i] == p) return extObjs[i]->id; return -2; }

/* ------------------------------------------------------------------ dump of a loader */
static void refsOut(const char *k, const NL_Reference *r) {
    op(k, '['); for (; r; r = r->next) { op(NULL, '['); jb(NULL, r->isForward); jid(NULL, &r->refType); jid(NULL, &r->target); cl(']'); } cl(']');
}
static void ltOut(const char *k, const NL_LocalizedText *t) { op(k, '['); js(NULL, t->locale); js(NULL, t->text); cl(']'); }
static void dataOut(const char *k, const NL_Data *d, const NL_Data *parent) {
    if (!d) { jnull(k); return; }
    op(k, '['); js(NULL, d->name);
    if (d->parent != parent) js(NULL, "BADPARENT");
    if (d->type == DATATYPE_PRIMITIVE) { js(NULL, "p"); js(NULL, d->val.primitiveData.value); }
    else { js(NULL, "c"); op(NULL, '['); for (size_t i = 0; i < d->val.complexData.membersSize; i++) dataOut(NULL, d->val.complexData.members[i], d); cl(']'); }
    cl(']');
}
static int onlyIds;
static size_t emitted;
static void nodeOut(void *ctx, NL_Node *n) {
    (void)ctx; int sv = inApi; inApi = 0; emitted++;
    op(NULL, '{'); ji("c", n->nodeClass); jid("id", &n->id);
    if (onlyIds) { cl('}'); inApi = sv; return; }
    ji("bns", n->browseName.nsIdx); js("bn", n->browseName.name);
    ltOut("dn", &n->displayName); ltOut("desc", &n->description);
    refsOut("h", n->hierachicalRefs); refsOut("n", n->nonHierachicalRefs); refsOut("u", n->unknownRefs);
    ji("ext", extId(n->extension));
    jb("inst", NodesetLoader_isInstanceNode(n));
    if (NodesetLoader_isInstanceNode(n)) jid("parent", &((NL_InstanceNode *)n)->parentNodeId);
    switch (n->nodeClass) {
    case NODECLASS_OBJECT: { NL_ObjectNode *o = (NL_ObjectNode *)n; js("EventNotifier", o->eventNotifier); refsOut("td", o->refToTypeDef); break; }
    case NODECLASS_OBJECTTYPE: js("IsAbstract", ((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *v = (NL_VariableTypeNode *)n; js("IsAbstract", v->isAbstract); jid("DataType", &v->datatype); js("ArrayDimensions", v->arrayDimensions); js("ValueRank", v->valueRank); break; }
    case NODECLASS_VARIABLE: { NL_VariableNode *v = (NL_VariableNode *)n; jid("DataType", &v->datatype); js("ArrayDimensions", v->arrayDimensions); js("ValueRank", v->valueRank);
        js("AccessLevel", v->accessLevel); js("UserAccessLevel", v->userAccessLevel); js("Historizing", v->historizing); js("MinimumSamplingInterval", v->minimumSamplingInterval); refsOut("td", v->refToTypeDef);
        if (!v->value) jnull("value"); else { op("value", '{'); jb("arr", v->value->isArray); jb("eo", v->value->isExtensionObject); js("type", v->value->type); dataOut("data", v->value->data, NULL); cl('}'); }
        break; }
    case NODECLASS_DATATYPE: { NL_DataTypeNode *d = (NL_DataTypeNode *)n; js("IsAbstract", d->isAbstract);
        if (!d->definition) jnull("def"); else { op("def", '{'); jb("enum", d->definition->isEnum); jb("union", d->definition->isUnion); jb("os", d->definition->isOptionSet);
            op("f", '['); for (size_t i = 0; i < d->definition->fieldCnt; i++) { NL_DataTypeDefinitionField *f = &d->definition->fields[i];
                op(NULL, '['); js(NULL, f->name); jid(NULL, &f->dataType); ji(NULL, f->valueRank); ji(NULL, f->value); jb(NULL, f->isOptional); cl(']'); } cl(']'); cl('}'); }
        break; }
    case NODECLASS_METHOD: { NL_MethodNode *m = (NL_MethodNode *)n; js("Executable", m->executable); js("UserExecutable", m->userExecutable); break; }
    case NODECLASS_REFERENCETYPE: { NL_ReferenceTypeNode *r = (NL_ReferenceTypeNode *)n; js("Symmetric", r->symmetric); js("IsAbstract", r->isAbstract); ltOut("inv", &r->inverseName); break; }
    case NODECLASS_VIEW: { NL_ViewNode *v = (NL_ViewNode *)n; js("ContainsNoLoops", v->containsNoLoops); js("EventNotifier", v->eventNotifier); break; }
    default: break;
    }
    cl('}'); inApi = sv;
}
/* ------------------------------------------------------------------ dump of a server */
static void valOut(const char *k, const void *p, const UA_DataType *t, int lvl);
static void membersOut(const char *k, const void *p, const UA_DataType *t, int lvl) {
    uintptr_t a = (uintptr_t)p;
    op(k, '[');
    for (size_t i = 0; i < t->membersSize; i++) {
        const UA_DataTypeMember *m = &t->members[i];
        a += m->padding;
        op(NULL, '['); js(NULL, m->memberName);
        if (m->isArray) {
            size_t n = *(size_t *)a; void *d = *(void **)(a + sizeof(size_t)); a += sizeof(size_t) + sizeof(void *);
            op(NULL, '['); for (size_t j = 0; j < n; j++) valOut(NULL, (char *)d + j * m->memberType->memSize, m->memberType, lvl + 1); cl(']');
        } else if (m->isOptional) {
            void *d = *(void **)a; a += sizeof(void *);
            if (d) { op(NULL, '{'); valOut("some", d, m->memberType, lvl + 1); cl('}'); } else jnull(NULL);
        } else { valOut(NULL, (void *)a, m->memberType, lvl + 1); a += m->memberType->memSize; }
        cl(']');
    }
    cl(']');
}
static void variantOut(const char *k, const UA_Variant *v, int lvl);
static void valOut(const char *k, const void *p, const UA_DataType *t, int lvl) {
    char b[96];
    if (lvl > 20) { js(k, "TOODEEP"); return; }
    switch (t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: ji(k, *(unsigned char *)p); return;
    case UA_DATATYPEKIND_SBYTE: ji(k, *(int8_t *)p); return;
    case UA_DATATYPEKIND_BYTE: ji(k, *(uint8_t *)p); return;
    case UA_DATATYPEKIND_INT16: ji(k, *(int16_t *)p); return;
    case UA_DATATYPEKIND_UINT16: ji(k, *(uint16_t *)p); return;
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: ji(k, *(int32_t *)p); return;
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: ji(k, *(uint32_t *)p); return;
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: ji(k, *(int64_t *)p); return;
    case UA_DATATYPEKIND_UINT64: ju(k, *(uint64_t *)p); return;
    case UA_DATATYPEKIND_FLOAT: { uint32_t u; memcpy(&u, p, 4); snprintf(b, sizeof b, "f%08x", u); js(k, b); return; }
    case UA_DATATYPEKIND_DOUBLE: { uint64_t u; memcpy(&u, p, 8); snprintf(b, sizeof b, "d%016llx", (unsigned long long)u); js(k, b); return; }
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_XMLELEMENT: jstr(k, (const UA_String *)p); return;
    case UA_DATATYPEKIND_BYTESTRING: { const UA_ByteString *s = (const UA_ByteString *)p; if (!s->data && !s->length) { jnull(k); return; } char *h = (char *)__real_malloc(2 * s->length + 1); hexOut(h, s->data, s->length); js(k, h); __real_free(h); return; }
    case UA_DATATYPEKIND_GUID: { const UA_Guid *g = (const UA_Guid *)p; int n = snprintf(b, sizeof b, "%08x%04x%04x", g->data1, g->data2, g->data3); for (int i = 0; i < 8; i++) n += snprintf(b + n, sizeof b - (size_t)n, "%02x", g->data4[i]); js(k, b); return; }
    case UA_DATATYPEKIND_NODEID: jid(k, (const UA_NodeId *)p); return;
    case UA_DATATYPEKIND_EXPANDEDNODEID: jid(k, &((const UA_ExpandedNodeId *)p)->nodeId); return;
    case UA_DATATYPEKIND_QUALIFIEDNAME: { const UA_QualifiedName *q = (const UA_QualifiedName *)p; op(k, '['); ji(NULL, q->namespaceIndex); jstr(NULL, &q->name); cl(']'); return; }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: { const UA_LocalizedText *q = (const UA_LocalizedText *)p; op(k, '['); jstr(NULL, &q->locale); jstr(NULL, &q->text); cl(']'); return; }
    case UA_DATATYPEKIND_VARIANT: variantOut(k, (const UA_Variant *)p, lvl + 1); return;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: if (t->membersSize == 0) { op(k, '['); cl(']'); return; } membersOut(k, p, t, lvl); return;
    case UA_DATATYPEKIND_UNION: {
        uint32_t sw = t->membersSize ? *(uint32_t *)p : 0; op(k, '{'); ji("sw", sw);
        if (sw && sw <= t->membersSize) { const UA_DataTypeMember *m = &t->members[sw - 1]; uintptr_t a = (uintptr_t)p + m->padding; js("m", m->memberName);
            if (m->isArray) { size_t n = *(size_t *)a; void *d = *(void **)(a + sizeof(size_t)); op("v", '['); for (size_t j = 0; j < n; j++) valOut(NULL, (char *)d + j * m->memberType->memSize, m->memberType, lvl + 1); cl(']'); }
            else valOut("v", (void *)a, m->memberType, lvl + 1); }
        cl('}'); return; }
    default: { /* no content expected: report whether it is null */
        int z = 1; for (size_t i = 0; i < t->memSize; i++) if (((const char *)p)[i]) z = 0;
        js(k, z ? "NULLVALUE" : "OPAQUE"); return; }
    }
}
static void variantOut(const char *k, const UA_Variant *v, int lvl) {
    if (!v->type) { jnull(k); return; }
    op(k, '{'); js("tn", v->type->typeName); jid("t", &v->type->typeId); ji("kind", v->type->typeKind);
    int arr = !UA_Variant_isScalar(v); jb("arr", arr);
    if (arr) { ju("len", v->arrayLength); op("v", '['); for (size_t i = 0; i < v->arrayLength; i++) valOut(NULL, (char *)v->data + i * v->type->memSize, v->type, lvl + 1); cl(']'); }
    else valOut("v", v->data, v->type, lvl + 1);
    if (v->arrayDimensionsSize) { op("dims", '['); for (size_t i = 0; i < v->arrayDimensionsSize; i++) ju(NULL, v->arrayDimensions[i]); cl(']'); }
    cl('}');
}
static void attrOut(const ShimNode *n) { membersOut("attr", n->attr, n->attrType, 0); }
static uint64_t fnv(const char *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
static uint64_t nodeHash(const ShimNode *n, size_t refs) { /* serialise into the output buffer and take it back */
    size_t keep = obn; int kc = comma[depth]; comma[depth] = 0; op(NULL, '{'); ji("c", n->nodeClass); jid("id", &n->id); ji("bns", n->browseName.namespaceIndex); jstr("bn", &n->browseName.name); attrOut(n);
    for (size_t i = 0; i < refs && i < n->refsSize; i++) { jid("r", &n->refs[i].refType); jid("t", &n->refs[i].target); jb("f", n->refs[i].isForward); } cl('}');
    uint64_t h = fnv(ob + keep, obn - keep); obn = keep; comma[depth] = kc; return h;
}
static int cmpIdx(const void *a, const void *b) { return 0; (void)a; (void)b; }
static int typeKnown(UA_Server *s, const UA_DataType *t) {
    if (t >= UA_TYPES && t < UA_TYPES + UA_TYPES_COUNT) return 1;
    for (const UA_DataTypeArray *a = UA_Server_getConfig(s)->customDataTypes; a; a = a->next)
        if (a->types && t >= a->types && t < a->types + a->typesSize) return 1;
    return 0;
}
static void sdump(SReg *r) {
    UA_Server *s = r->s;
    op("ns", '['); for (size_t i = 0; i < shim_namespaceCount(s); i++) { UA_String u = shim_namespaceAt(s, i); jstr(NULL, &u); } cl(']');
    op("nodes", '['); size_t nb = 0;
    for (size_t i = 0; i < shim_nodeCount(s); i++) {
        const ShimNode *n = shim_nodeAt(s, i); if (n->isBase) { nb++; continue; }
        op(NULL, '{'); ji("c", n->nodeClass); jid("id", &n->id); ji("bns", n->browseName.namespaceIndex); jstr("bn", &n->browseName.name); attrOut(n); ji("ext", extId(n->context));
        op("refs", '['); for (size_t j = 0; j < n->refsSize; j++) { op(NULL, '['); jb(NULL, n->refs[j].isForward); jid(NULL, &n->refs[j].refType); jid(NULL, &n->refs[j].target); cl(']'); } cl(']');
        cl('}');
    }
    cl(']');
    op("baseRefs", '['); size_t k = 0;
    for (size_t i = 0; i < shim_nodeCount(s); i++) { const ShimNode *n = shim_nodeAt(s, i); if (!n->isBase) continue;
        for (size_t j = r->baseRefs[k]; j < n->refsSize; j++) { op(NULL, '['); jid(NULL, &n->id); jb(NULL, n->refs[j].isForward); jid(NULL, &n->refs[j].refType); jid(NULL, &n->refs[j].target); cl(']'); } k++; }
    cl(']');
    op("baseChanged", '['); k = 0;
    for (size_t i = 0; i < shim_nodeCount(s); i++) { const ShimNode *n = shim_nodeAt(s, i); if (!n->isBase) continue; if (k >= r->baseN || nodeHash(n, r->baseRefs[k]) != r->baseHash[k]) jid(NULL, &n->id); k++; }
    if (nb != r->baseN) js(NULL, "base node count changed");
    cl(']');
    op("types", '[');
    for (const UA_DataTypeArray *a = UA_Server_getConfig(s)->customDataTypes; a; a = a->next)
        for (size_t i = 0; a->types && i < a->typesSize; i++) { const UA_DataType *t = &a->types[i];
            op(NULL, '{'); js("name", t->typeName); jid("id", &t->typeId); jid("enc", &t->binaryEncodingId); ji("size", t->memSize); ji("kind", t->typeKind); jb("pf", t->pointerFree); jb("ov", t->overlayable);
            op("m", '['); for (size_t j = 0; j < t->membersSize; j++) { const UA_DataTypeMember *m = &t->members[j]; op(NULL, '['); js(NULL, m->memberName);
                if (!m->memberType) js(NULL, "NOTYPE"); else if (!typeKnown(s, m->memberType)) js(NULL, "DANGLING"); else jid(NULL, &m->memberType->typeId);
                jb(NULL, m->isArray); jb(NULL, m->isOptional); ji(NULL, m->padding); cl(']'); } cl(']'); cl('}'); }
    cl(']');
}
/* ------------------------------------------------------------------ scripts */
static char *unesc(char *s) { /* %XX */
    char *d = s, *r = s; for (; *s; s++) { if (*s == '%' && s[1] && s[2]) { char h[3] = {s[1], s[2], 0}; *d++ = (char)strtol(h, NULL, 16); s += 2; } else *d++ = *s; } *d = 0; return r; }
static size_t fdCount(void) { size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static UA_NodeId parseId(char *s) { UA_NodeId id = UA_NODEID_NULL; UA_NodeId_parse(&id, UA_STRING(s)); return id; }
static void evOut(const char *k) {
    op(k, '['); for (size_t i = 0; i < evn; i++) { ExtEv *e = &ev[i]; char kk[2] = {e->kind, 0}; op(NULL, '['); js(NULL, kk); ji(NULL, e->obj);
        if (e->kind == 's' || e->kind == 'e') js(NULL, e->name);
        if (e->kind == 's') { op(NULL, '['); for (int a = 0; a < e->nattr; a++) { op(NULL, '['); for (int j = 0; j < 4; j++) js(NULL, e->attr[a*4+j]); cl(']'); } cl(']'); }
        if (e->kind == 'e') js(NULL, e->val);
        cl(']'); } cl(']'); evn = 0; }

/* the arena against a shadow copy */
typedef struct { char *p; size_t n; unsigned seed; } Blk;
static unsigned char pat(unsigned seed, size_t i) { return (unsigned char)(1 + (seed * 131u + (unsigned)i * 7u) % 255u); }
static void doArena(char **a, int n) {
    size_t init = strtoul(a[0], NULL, 10); Blk *b = (Blk *)__real_calloc((size_t)n + 1, sizeof(Blk)); size_t bn = 0; char err[200] = ""; size_t moves = 0, regions = 0;
    CharArenaAllocator *ar; API(ar = CharArenaAllocator_new(init));
    if (!ar) snprintf(err, sizeof err, "no arena");
    size_t total = 0;
    for (int i = 1; i < n && !err[0]; i++) {
        total += strtoul(a[i] + 1, NULL, 10);
        size_t sz = strtoul(a[i] + 1, NULL, 10); char *p; size_t from = 0;
        if (a[i][0] == 'm') { API(p = CharArenaAllocator_malloc(ar, sz)); if (!p) { snprintf(err, sizeof err, "op %d: malloc(%zu) returned NULL", i, sz); break; } b[bn].p = p; b[bn].n = sz; b[bn].seed = (unsigned)i; bn++; }
        else { if (!bn) continue; API(p = CharArenaAllocator_realloc(ar, sz)); if (!p) { snprintf(err, sizeof err, "op %d: realloc(%zu) returned NULL", i, sz); break; } from = b[bn-1].n; if (p != b[bn-1].p) moves++; b[bn-1].p = p; b[bn-1].n += sz; }
        Blk *c = &b[bn-1];
        for (size_t j = from; j < c->n; j++) if (c->p[j]) { snprintf(err, sizeof err, "op %d: new byte %zu of block %zu is not zero", i, j, bn - 1); break; }
        for (size_t j = from; j < c->n && !err[0]; j++) c->p[j] = (char)pat(c->seed, j);
        for (size_t x = 0; x + 1 < bn && !err[0]; x++) if (b[x].n && c->n && b[x].p < c->p + c->n && c->p < b[x].p + b[x].n) snprintf(err, sizeof err, "op %d: block %zu overlaps block %zu", i, bn - 1, x);
        for (size_t x = total > 100000 && i + 1 < n && bn > 2 ? bn - 2 : 0; x < bn && !err[0]; x++) for (size_t j = 0; j < b[x].n; j++) if ((unsigned char)b[x].p[j] != pat(b[x].seed, j)) { snprintf(err, sizeof err, "op %d: byte %zu of block %zu (of %zu) changed", i, j, x, bn); break; }
    }
    (void)regions;
    if (ar) API(CharArenaAllocator_delete(ar));
    if (!err[0] && ledLive != ledBase) snprintf(err, sizeof err, "%zd blocks not released", (ssize_t)(ledLive - ledBase));
    js("err", err[0] ? err : NULL); ju("moves", moves); ju("blocks", bn); __real_free(b);
}


static SReg pre[PRE]; static int preNext;
static void prepareServers(void) {
    for (int q = 0; q < PRE; q++) {
        SReg *s = &pre[q]; API(s->s = UA_Server_new()); s->origLogger = (UA_Logger *)(uintptr_t)UA_Server_getConfig(s->s)->logging; s->logger.log = capUaLog; s->logger.clear = NULL;
        size_t k = 0, N = shim_nodeCount(s->s); s->baseHash = (uint64_t *)__real_calloc(N + 1, 8); s->baseRefs = (size_t *)__real_calloc(N + 1, sizeof(size_t));
        for (size_t i = 0; i < N; i++) { const ShimNode *nd = shim_nodeAt(s->s, i); if (nd->isBase) { s->baseRefs[k] = nd->refsSize; s->baseHash[k] = nodeHash(nd, nd->refsSize); k++; } } s->baseN = k;
    }
    ledBase = ledLive;
}

static void run(char **a, int n) {
    const char *c = a[0];
    int r = n > 1 ? atoi(a[1]) : 0; if (r < 0 || r >= MAXR) r = 0;
    js("cmd", c);
    if (!strcmp(c, "loader")) { /* loader L cap|default */
        LReg *l = &L[r]; l->logger.context = &l->msgs; l->logger.log = capLog;
        API(l->l = NodesetLoader_new(n > 2 && !strcmp(a[2], "default") ? NULL : &l->logger, n > 3 ? svcIf[atoi(a[3]) & 3] : NULL));
    } else if (!strcmp(c, "svc")) { svcNew(atoi(a[1]) & 3, a + 2, n - 2);
    } else if (!strcmp(c, "svcdump")) { Svc *v = &svcs[atoi(a[1]) & 3]; op("added", '['); for (size_t i = 0; i < v->addedN; i++) js(NULL, v->added[i]); cl(']'); jb("bad", v->bad || svcs[0].bad); jb("badref", v->badRef); v->addedN = 0; if (n > 2) __real_free(svcIf[atoi(a[1]) & 3]);
    } else if (!strcmp(c, "import")) { /* import L path table ext mode */
        LReg *l = &L[r]; ImpCtx *ic = (ImpCtx *)__real_calloc(1, sizeof *ic); ic->magic = 4711; ic->table = n > 3 ? atoi(a[3]) : 0; curImp = ic;
        /* what the caller hands over is the caller's again after the call: released here, so that a later use of it shows */
        NL_FileContext *fc = (NL_FileContext *)__real_calloc(1, sizeof *fc); char *path = strdup(a[2]);
        fc->userContext = ic; fc->file = path; ic->cb = ++callNo % 3; fc->addNamespace = nsCbs[ic->cb]; fc->extensionHandling = extPick(n > 4 && atoi(a[4]));
        const char *mode = n > 5 ? a[5] : ""; bool ok;
        if (!strcmp(mode, "nocb")) fc->addNamespace = NULL;
        if (!strcmp(mode, "nofile")) fc->file = NULL;
        API(ok = NodesetLoader_importFile(l->l, !strcmp(mode, "noctx") ? NULL : fc));
        __real_free(fc); __real_free(path);
        jb("ok", ok); op("uris", '['); for (size_t i = 0; i < ic->n; i++) js(NULL, ic->uris[i]); cl(']'); jb("badctx", ic->badCtx); ic->magic = 0; __real_free(ic); curImp = NULL;
        evOut("ev"); msgsOut("log", &l->msgs);
    } else if (!strcmp(c, "sort")) { bool ok; API(ok = NodesetLoader_sort(L[r].l)); jb("ok", ok); msgsOut("log", &L[r].msgs);
    } else if (!strcmp(c, "dump") || !strcmp(c, "ids")) { onlyIds = c[0] == 'i'; op("nodes", '['); size_t cnt[8], em[8];
        for (int k = 0; k < 8; k++) { emitted = 0; API(cnt[k] = NodesetLoader_forEachNode(L[r].l, (NL_NodeClass)k, NULL, nodeOut)); em[k] = emitted; } cl(']');
        op("cnt", '['); for (int k = 0; k < 8; k++) ju(NULL, cnt[k]); cl(']'); op("em", '['); for (int k = 0; k < 8; k++) ju(NULL, em[k]); cl(']'); msgsOut("log", &L[r].msgs);
    } else if (!strcmp(c, "bidi")) { const NL_BiDirectionalReference *b; API(b = NodesetLoader_getBidirectionalRefs(L[r].l)); op("refs", '['); for (; b; b = b->next) { op(NULL, '['); jid(NULL, &b->source); jid(NULL, &b->target); jid(NULL, &b->refType); cl(']'); } cl(']');
    } else if (!strcmp(c, "delete")) { API(NodesetLoader_delete(L[r].l)); L[r].l = NULL; msgsOut("log", &L[r].msgs);
    } else if (!strcmp(c, "nstable")) { /* nstable T start [uri idx]* */
        NsTable *t = &T[atoi(a[1]) & 7]; t->n = 0; t->next = (unsigned)atoi(a[2]); for (int i = 3; i + 1 < n; i += 2) { t->e[t->n].uri = strdup(a[i]); t->e[t->n++].idx = (unsigned)atoi(a[i+1]); }
    } else if (!strcmp(c, "census")) { xmlInitParser(); xmlResetLastError(); ji("live", (long long)ledLive - (long long)(ledBase / PRE) * (PRE - preGone)); ju("fds", fdCount());
    } else if (!strcmp(c, "iofault")) { /* iofault N [max]: reading a file fails after N bytes; iofault -1: no more */
        ju("hits", ioHits); ioHits = 0; ioFail = atoll(a[1]); ioShort = n > 2 ? (unsigned long)atol(a[2]) : 0;
    } else if (!strcmp(c, "env")) { /* env locale PATH NAME | env tz NAME | env cd DIR */
        int ok = 0;
        if (!strcmp(a[1], "locale")) { setenv("LOCPATH", a[2], 1); ok = setlocale(LC_ALL, a[3]) != NULL; js("point", localeconv()->decimal_point); }
        else if (!strcmp(a[1], "tz")) { setenv("TZ", a[2], 1); tzset(); ok = 1; }
        else if (!strcmp(a[1], "cd")) ok = chdir(a[2]) == 0;
        jb("ok", ok);
    } else if (!strcmp(c, "server")) {
        /* servers are prepared before the fork */
        if (preNext >= PRE) { js("error", "too many servers"); return; }
        S[r] = pre[preNext++]; S[r].logger.context = &S[r].msgs; UA_Server_getConfig(S[r].s)->logging = &S[r].logger;
    } else if (!strcmp(c, "addns")) { unsigned idx; API(idx = UA_Server_addNamespace(S[r].s, a[2])); ju("idx", idx);
    } else if (!strcmp(c, "snode")) { /* snode S class id parent reftype bns bn */
        UA_NodeId id = parseId(a[3]), p = parseId(a[4]), rt = parseId(a[5]); UA_QualifiedName q = UA_QUALIFIEDNAME((UA_UInt16)atoi(a[6]), a[7]); UA_StatusCode st = UA_STATUSCODE_BADINTERNALERROR; int k = atoi(a[2]); inApi++;
        if (k == UA_NODECLASS_REFERENCETYPE) { UA_ReferenceTypeAttributes at = UA_ReferenceTypeAttributes_default; at.displayName = UA_LOCALIZEDTEXT("", a[7]); at.isAbstract = n > 8 && atoi(a[8]); st = UA_Server_addReferenceTypeNode(S[r].s, id, p, rt, q, at, NULL, NULL); }
        else if (k == UA_NODECLASS_OBJECT) { UA_ObjectAttributes at = UA_ObjectAttributes_default; at.displayName = UA_LOCALIZEDTEXT("", a[7]); st = UA_Server_addObjectNode(S[r].s, id, p, rt, q, UA_NODEID_NUMERIC(0, 58), at, NULL, NULL); }
        inApi--; ju("st", st); UA_NodeId_clear(&id); UA_NodeId_clear(&p); UA_NodeId_clear(&rt);
    } else if (!strcmp(c, "load")) { bool ok; API(ok = NodesetLoader_loadFile(r == 63 ? NULL : S[r].s, n > 2 && strcmp(a[2], "-") ? a[2] : NULL, (callNo++, extPick(n > 3 && atoi(a[3]))))); jb("ok", ok); if (r != 63) msgsOut("log", &S[r].msgs); evOut("ev");
    } else if (!strcmp(c, "sdump")) { sdump(&S[r]);
    } else if (!strcmp(c, "getct")) { UA_NodeId id = parseId(a[2]); const UA_DataType *t; API(t = NodesetLoader_getCustomDataType(S[r].s, &id)); if (t) { js("name", t->typeName); jid("id", &t->typeId); } else jnull("name"); UA_NodeId_clear(&id);
    } else if (!strcmp(c, "sdelete")) { SReg *s = &S[r]; const UA_DataTypeArray *ct = UA_Server_getConfig(s->s)->customDataTypes; UA_Server_getConfig(s->s)->logging = s->origLogger;
        API(UA_Server_delete(s->s); NodesetLoader_cleanupCustomDataTypes(ct)); s->s = NULL; preGone++;
    } else if (!strcmp(c, "arena")) { doArena(a + 1, n - 1);
    } else if (!strcmp(c, "plog")) { /* default logger with a choice of formats: plog level kind str num */
        if (!InternalLogger_new) { js("na", "1"); goto noplog; }
        NodesetLoader_Logger *lg; API(lg = InternalLogger_new()); enum NodesetLoader_LogLevel lv = (enum NodesetLoader_LogLevel)atoi(a[1]); int k = atoi(a[2]); const char *s = a[3]; int num = atoi(a[4]);
        char *exp = NULL; inApi++;
        switch (k) {
        case 0: lg->log(lg->context, lv, "plain message"); inApi--; (void)!asprintf(&exp, "plain message"); break;
        case 1: lg->log(lg->context, lv, "text %s end", s); inApi--; (void)!asprintf(&exp, "text %s end", s); break;
        case 2: lg->log(lg->context, lv, "a %d b %s c %zu", num, s, (size_t)num + 1); inApi--; (void)!asprintf(&exp, "a %d b %s c %zu", num, s, (size_t)num + 1); break;
        case 3: lg->log(lg->context, lv, "id(%.*s)", (int)strlen(s) / 2, s); inApi--; (void)!asprintf(&exp, "id(%.*s)", (int)strlen(s) / 2, s); break;
        case 4: lg->log(lg->context, lv, "%s", s); inApi--; (void)!asprintf(&exp, "%s", s); break;
        case 5: lg->log(lg->context, lv, "%s%s%d%f%c%lu", s, s, num, num / 8.0, 'x', (unsigned long)num * 3); inApi--; (void)!asprintf(&exp, "%s%s%d%f%c%lu", s, s, num, num / 8.0, 'x', (unsigned long)num * 3); break;
        default: lg->log(lg->context, lv, "100%% of %s", s); inApi--; (void)!asprintf(&exp, "100%% of %s", s); break;
        }
        js("exp", exp); API(free(lg));
        noplog:;
    } else js("error", "unknown command");
}
static int memfd(const char *n) { int fd = memfd_create(n, 0); if (fd < 0) { FILE *f = tmpfile(); fd = f ? fileno(f) : -1; } return fd; }
static void child(char *script, int jfd) {
    struct rlimit rl = {12, 14}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    /* results are flushed command by command, so a crash keeps what came before */
    out("["); char *save; int first = 1;
    for (char *line = strtok_r(script, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
        static char *a[200000]; int n = 0; char *s2; for (char *t = strtok_r(line, " ", &s2); t && n < 199999; t = strtok_r(NULL, " ", &s2)) a[n++] = unesc(t);
        if (!n) continue; if (!first) out(","); first = 0; out("{"); depth = 1; comma[1] = 0; run(a, n); out("}");
        fflush(stdout);
        for (size_t o = 0; o < obn;) { ssize_t w = write(jfd, ob + o, obn - o); if (w <= 0) break; o += (size_t)w; } obn = 0;
    }
    (void)!write(jfd, "]", 1); fflush(stdout); _exit(0);
}
static void sendAll(int fd, const char *p, size_t n) { while (n) { ssize_t w = write(fd, p, n); if (w <= 0) exit(0); p += w; n -= (size_t)w; } }
static char *slurp(int fd, size_t *n, size_t max) { off_t e = lseek(fd, 0, SEEK_END); size_t len = e < 0 ? 0 : (size_t)e; size_t skip = 0; if (len > max) { skip = 0; len = max; } char *b = (char *)__real_malloc(len + 1); *n = 0; if (len) { ssize_t r = pread(fd, b, len, (off_t)skip); *n = r < 0 ? 0 : (size_t)r; } return b; }
int main(void) {
    xmlMemSetup(__wrap_free, __wrap_malloc, __wrap_realloc, __wrap_strdup);
    xmlInitParser(); { xmlSAXHandler h; memset(&h, 0, sizeof h); h.initialized = XML_SAX2_MAGIC; xmlParserCtxtPtr c = xmlCreatePushParserCtxt(&h, NULL, "<a/>", 4, NULL); xmlParseChunk(c, "", 0, 1); xmlFreeParserCtxt(c); xmlResetLastError(); }
    prepareServers();
    int so = dup(1), dev = 2; (void)dev; (void)cmpIdx;
    char hdr[64];
    for (;;) {
        size_t len = 0; int ch; while ((ch = getchar()) != EOF && ch != '\n') len = len * 10 + (size_t)(ch - '0'); if (ch == EOF) return 0;
        char *script = (char *)__real_malloc(len + 1); if (fread(script, 1, len, stdin) != len) return 0; script[len] = 0;
        int j = memfd("j"), o = memfd("o"), e = memfd("e");
        pid_t p = fork();
        if (p == 0) { dup2(o, 1); dup2(e, 2); close(so); close(0); child(script, j); }
        int st = 0; if (p > 0) waitpid(p, &st, 0); else st = -1;
        size_t jn, on, en; char *jb_ = slurp(j, &jn, 1u << 30), *ob_ = slurp(o, &on, 1 << 22), *eb = slurp(e, &en, 1 << 16);
        int hn = snprintf(hdr, sizeof hdr, "%d %zu %zu %zu\n", st, jn, on, en); sendAll(so, hdr, (size_t)hn); sendAll(so, jb_, jn); sendAll(so, ob_, on); sendAll(so, eb, en);
        __real_free(jb_); __real_free(ob_); __real_free(eb); __real_free(script); close(j); close(o); close(e);
    }
}
