/* libFuzzer target: first byte = options, rest = one or two files; load into a server of the stand-in, read back, delete */
#define _GNU_SOURCE
#include <open62541/server.h>
#include <open62541/server_config_default.h>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <libxml/xmlerror.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
static unsigned long sink;
static void rd(const char *s) { if (s) while (*s) sink += (unsigned char)*s++; }
static char *objs[4096]; static int on;
static void *xnew(void) { char *p = (char *)calloc(1, 8); if (on < 4096) objs[on++] = p; return p; }
static void xstart(void *o, const char *n, int k, const char **a) { if (o) *(char *)o += 1; rd(n); (void)k; (void)a; }
static void xend(void *o, const char *n, const char *v) { if (o) *(char *)o += 1; rd(n); rd(v); }
static void xfin(void *o) { if (o) *(char *)o += 1; }
static NodesetLoader_ExtensionInterface ext = {NULL, xnew, xstart, xend, xfin};
static void quiet(void *c, const char *m, ...) { (void)c; (void)m; }
static void lg(void *c, UA_LogLevel l, UA_LogCategory k, const char *f, va_list v) { char b[256]; (void)c; (void)l; (void)k; vsnprintf(b, sizeof b, f, v); rd(b); }
int LLVMFuzzerInitialize(int *c, char ***v) { (void)c; (void)v; xmlSetGenericErrorFunc(NULL, quiet); return 0; }
static void imp(UA_Server *s, const uint8_t *d, size_t n, int useExt) {
    static int fd = -1; static char path[64];
    if (fd < 0) { fd = memfd_create("f", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
    if (ftruncate(fd, 0) || pwrite(fd, d, n, 0) != (ssize_t)n) return;
    NodesetLoader_loadFile(s, path, useExt ? &ext : NULL);
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 1) return 0;
    unsigned o = d[0]; d++; n--;
    UA_Server *s = UA_Server_new();
    UA_ServerConfig *cfg = UA_Server_getConfig(s); const UA_Logger *orig = cfg->logging; UA_Logger logger; memset(&logger, 0, sizeof logger); logger.log = lg; cfg->logging = &logger;
    const uint8_t *cut = (o & 4) && n > 9 ? (const uint8_t *)memmem(d, n, "\n#SPLIT#\n", 9) : NULL;
    size_t first = cut ? (size_t)(cut - d) : n;
    imp(s, d, first, o & 1);
    if (cut) imp(s, cut + 9, n - first - 9, o & 1);
    for (size_t i = 0; i < shim_nodeCount(s); i++) { /* every value and text again */
        const ShimNode *nd = shim_nodeAt(s, i); if (nd->isBase || !nd->attr) continue;
        void *c = calloc(1, nd->attrType->memSize); if (UA_copy(nd->attr, c, nd->attrType) == UA_STATUSCODE_GOOD) UA_clear(c, nd->attrType); free(c);
        const UA_DataType *t = NodesetLoader_getCustomDataType(s, &nd->id); if (t) { rd(t->typeName); for (size_t j = 0; j < t->membersSize; j++) { rd(t->members[j].memberName); sink += t->members[j].memberType->memSize; } }
    }
    const UA_DataTypeArray *ct = cfg->customDataTypes; cfg->logging = (UA_Logger *)(uintptr_t)orig;
    UA_Server_delete(s); NodesetLoader_cleanupCustomDataTypes(ct);
    for (int i = 0; i < on; i++) free(objs[i]); on = 0;
    xmlResetLastError();
    return 0;
}
#include "mutator.h"
