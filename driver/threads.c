/* threads N rounds (--c|--d|--s file...)+: N threads, each round of a thread runs one job with loaders (servers) of its own and compares with the job run alone.
 * --c: core with a logger of the caller, --d: core with the default logger, --s: the files are loaded into an own server, which the last round keeps for a dump.
 * stderr: DIFF lines; exit 3 if there are any. */
#define main driver_main
#define __real_malloc malloc
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_free free
#define __real_strdup strdup
#define __real_fopen fopen
#define __real_fopen64 fopen64
#include "driver.c"
#undef main
#include <pthread.h>
typedef struct { uint64_t h; unsigned idx; char *uris[64]; unsigned n; unsigned long nodes, logs; } Ctx;
static void add(Ctx *c, const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) c->h = (c->h ^ b[i]) * 1099511628211ull; }
static void str(Ctx *c, const char *s) { add(c, s ? s : "\1", s ? strlen(s) + 1 : 1); }
static void num(Ctx *c, uint64_t v) { add(c, &v, sizeof v); }
static void id(Ctx *c, const UA_NodeId *i) {
    num(c, i->namespaceIndex); num(c, i->identifierType);
    switch (i->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: num(c, i->identifier.numeric); break;
    case UA_NODEIDTYPE_GUID: add(c, &i->identifier.guid, sizeof(UA_Guid)); break;
    default: add(c, i->identifier.string.data, i->identifier.string.length); num(c, i->identifier.string.length);
    }
}
static void refs(Ctx *c, const NL_Reference *r) { for (; r; r = r->next) { num(c, r->isForward); id(c, &r->refType); id(c, &r->target); } num(c, 77); }
static void data(Ctx *c, const NL_Data *d, int depth) {
    if (!d || depth > 300) return;
    str(c, d->name); num(c, d->type);
    if (d->type == DATATYPE_PRIMITIVE) str(c, d->val.primitiveData.value);
    else for (size_t i = 0; i < d->val.complexData.membersSize; i++) data(c, d->val.complexData.members[i], depth + 1);
}
static void node(void *ctx, NL_Node *n) {
    Ctx *c = (Ctx *)ctx; c->nodes++;
    num(c, n->nodeClass); id(c, &n->id); num(c, n->browseName.nsIdx); str(c, n->browseName.name);
    str(c, n->displayName.text); str(c, n->displayName.locale); str(c, n->description.text);
    refs(c, n->hierachicalRefs); refs(c, n->nonHierachicalRefs); refs(c, n->unknownRefs);
    if (n->nodeClass == NODECLASS_VARIABLE) {
        NL_VariableNode *v = (NL_VariableNode *)n; id(c, &v->datatype); str(c, v->arrayDimensions); str(c, v->valueRank);
        if (v->value) { num(c, v->value->isArray); num(c, v->value->isExtensionObject); str(c, v->value->type); data(c, v->value->data, 0); }
    }
    if (n->nodeClass == NODECLASS_DATATYPE) {
        NL_DataTypeNode *d = (NL_DataTypeNode *)n;
        if (d->definition) for (size_t i = 0; i < d->definition->fieldCnt; i++) { str(c, d->definition->fields[i].name); id(c, &d->definition->fields[i].dataType); num(c, (uint64_t)d->definition->fields[i].valueRank); num(c, (uint64_t)d->definition->fields[i].value); }
    }
}
static unsigned short ns(void *ctx, const char *uri) {
    Ctx *c = (Ctx *)ctx; str(c, uri);
    for (unsigned i = 0; i < c->n; i++) if (!strcmp(c->uris[i], uri)) return (unsigned short)(i + 1);
    if (c->n < 64) { c->uris[c->n++] = strdup(uri); return (unsigned short)c->n; }
    return 1;
}
static void logger(void *ctx, enum NodesetLoader_LogLevel l, const char *f, ...) {
    Ctx *c = (Ctx *)ctx; char b[600]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); num(c, l); str(c, b); c->logs++;
}
static void once(char **files, int n, int def, char *out, size_t cap) {
    Ctx c; memset(&c, 0, sizeof c); c.h = 14695981039346656037ull;
    NodesetLoader_Logger lg; lg.context = &c; lg.log = logger;
    NodesetLoader *l = NodesetLoader_new(def ? NULL : &lg, NULL); int ok = 0;
    for (int i = 0; i < n; i++) {
        NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.userContext = &c; fc.file = files[i]; fc.addNamespace = ns;
        ok = ok * 2 + NodesetLoader_importFile(l, &fc);
    }
    ok = ok * 2 + NodesetLoader_sort(l);
    for (int k = 0; k < NL_NODECLASS_COUNT; k++) num(&c, NodesetLoader_forEachNode(l, (NL_NodeClass)k, &c, node));
    for (const NL_BiDirectionalReference *b = NodesetLoader_getBidirectionalRefs(l); b; b = b->next) { id(&c, &b->source); id(&c, &b->target); }
    NodesetLoader_delete(l);
    for (unsigned i = 0; i < c.n; i++) free(c.uris[i]);
    snprintf(out, cap, "%016llx ok=%x nodes=%lu logs=%lu", (unsigned long long)c.h, ok, c.nodes, c.logs);
}

/* ---- server jobs */
typedef struct { UA_Logger lg; Ctx c; } SLog;
static void slog(void *ctx, UA_LogLevel l, UA_LogCategory cat, const char *f, va_list v) { (void)cat; Ctx *c = (Ctx *)ctx; char b[600]; vsnprintf(b, sizeof b, f, v); num(c, l); str(c, b); c->logs++; }
typedef struct { UA_Server *s; SLog *lg; const UA_Logger *orig; } Kept;
static void serverEnd(Kept *k) {
    const UA_DataTypeArray *ct = UA_Server_getConfig(k->s)->customDataTypes; UA_Server_getConfig(k->s)->logging = (UA_Logger *)(uintptr_t)k->orig;
    UA_Server_delete(k->s); NodesetLoader_cleanupCustomDataTypes(ct); free(k->lg); k->s = NULL;
}
static void serverJob(char **files, int n, Kept *keep, char *out, size_t cap) {
    Kept k; k.s = UA_Server_new(); k.lg = (SLog *)calloc(1, sizeof(SLog)); k.orig = UA_Server_getConfig(k.s)->logging;
    k.lg->c.h = 14695981039346656037ull; k.lg->lg.log = slog; k.lg->lg.context = &k.lg->c; UA_Server_getConfig(k.s)->logging = &k.lg->lg;
    int ok = 0;
    for (int i = 0; i < n; i++) ok = ok * 2 + NodesetLoader_loadFile(k.s, files[i], NULL);
    snprintf(out, cap, "%016llx ok=%x nodes=%zu ns=%zu logs=%lu", (unsigned long long)k.lg->c.h, ok, shim_nodeCount(k.s), shim_namespaceCount(k.s), k.lg->c.logs);
    if (keep) *keep = k; else serverEnd(&k);
}
static SReg base;
static void serverDigest(Kept *k, char *out, size_t cap) { /* main thread only */
    SReg r = base; r.s = k->s; obn = 0; depth = 1; comma[1] = 0; sdump(&r);
    size_t l = strlen(out); snprintf(out + l, cap - l, " dump=%016llx/%zu", (unsigned long long)fnv(ob, obn), obn); serverEnd(k);
}
/* a job: the files of one loader */
typedef struct { char kind, **f; int n; } Job;
static Job jobs[64]; static int nj, rounds;
static pthread_barrier_t bar;
#define LEN 160
static char (*res)[LEN]; static Kept *kept;
static void doJob(Job *j, Kept *keep, char *out) { if (j->kind == 's') serverJob(j->f, j->n, keep, out, LEN); else once(j->f, j->n, j->kind == 'd', out, LEN); }
static void *thread(void *a) {
    int t = (int)(intptr_t)a;
    pthread_barrier_wait(&bar);
    for (int r = 0; r < rounds; r++) doJob(&jobs[(t + r) % nj], r == rounds - 1 ? &kept[t] : NULL, res[t * rounds + r]);
    return NULL;
}
int main(int argc, char **argv) {
    int N = atoi(argv[1]); rounds = atoi(argv[2]);
    for (int i = 3; i < argc && nj < 64; i++) { if (argv[i][0] == '-') { jobs[nj].kind = argv[i][2]; jobs[nj].f = &argv[i + 1]; nj++; } else if (nj) jobs[nj - 1].n++; }
    res = (char(*)[LEN])calloc((size_t)(N * rounds), LEN); kept = (Kept *)calloc((size_t)N, sizeof(Kept)); pthread_t *th = (pthread_t *)calloc((size_t)N, sizeof(pthread_t));
    pthread_barrier_init(&bar, NULL, (unsigned)N);
    for (int t = 0; t < N; t++) pthread_create(&th[t], NULL, thread, (void *)(intptr_t)t);
    for (int t = 0; t < N; t++) pthread_join(th[t], NULL);
    static char alone[64][LEN], aloneDump[64][LEN]; int server = 0;
    for (int j = 0; j < nj; j++) if (jobs[j].kind == 's') server = 1;
    if (server) { /* what a server holds before anything is loaded */
        base.s = UA_Server_new(); size_t k = 0, n = shim_nodeCount(base.s); base.baseHash = (uint64_t *)calloc(n + 1, 8); base.baseRefs = (size_t *)calloc(n + 1, sizeof(size_t)); obn = 0; depth = 1;
        for (size_t i = 0; i < n; i++) { const ShimNode *nd = shim_nodeAt(base.s, i); if (nd->isBase) { base.baseRefs[k] = nd->refsSize; base.baseHash[k] = nodeHash(nd, nd->refsSize); k++; } } base.baseN = k;
        UA_Server_delete(base.s);
    }
    for (int j = 0; j < nj; j++) { Kept k = {0}; doJob(&jobs[j], &k, alone[j]); memcpy(aloneDump[j], alone[j], LEN); if (k.s) serverDigest(&k, aloneDump[j], LEN); }
    int bad = 0;
    for (int t = 0; t < N; t++) for (int r = 0; r < rounds; r++) {
        int j = (t + r) % nj; char *got = res[t * rounds + r]; const char *want = alone[j];
        if (r == rounds - 1 && kept[t].s) { serverDigest(&kept[t], got, LEN); want = aloneDump[j]; }
        if (strcmp(got, want)) { fprintf(stderr, "DIFF thread %d round %d job %d: %s instead of %s\n", t, r, j, got, want); bad = 1; }
    }
    fprintf(stderr, "DONE %d runs\n", N * rounds); for (int j = 0; j < nj; j++) fprintf(stderr, "JOB %c %s\n", jobs[j].kind, aloneDump[j]);
    free(res); free(th); free(kept); free(base.baseHash); free(base.baseRefs); free(ob);
    return bad ? 3 : 0;
}
