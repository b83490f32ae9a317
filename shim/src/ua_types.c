/* Stand-in implementation of the open62541 type layer used by the nodeset loader. */
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/util.h>
#include <ctype.h>
#include <time.h>

const UA_String UA_STRING_NULL = {0, NULL};
const UA_ByteString UA_BYTESTRING_NULL = {0, NULL};
const UA_Guid UA_GUID_NULL = {0, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}};
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};
const UA_ObjectAttributes UA_ObjectAttributes_default = {0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, 0};
const UA_VariableAttributes UA_VariableAttributes_default = {
    0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, {NULL, UA_VARIANT_DATA, 0, NULL, 0, NULL},
    {0, UA_NODEIDTYPE_NUMERIC, {UA_NS0ID_BASEDATATYPE}}, -2, 0, NULL, 1, 0, 0.0, false};
const UA_MethodAttributes UA_MethodAttributes_default = {0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, true, true};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default = {0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, false};
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {
    0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, {NULL, UA_VARIANT_DATA, 0, NULL, 0, NULL},
    {0, UA_NODEIDTYPE_NUMERIC, {UA_NS0ID_BASEDATATYPE}}, -2, 0, NULL, false};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default = {
    0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, false, false, {{0, NULL}, {0, NULL}}};
const UA_DataTypeAttributes UA_DataTypeAttributes_default = {0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, false};
const UA_ViewAttributes UA_ViewAttributes_default = {0, {{0, NULL}, {0, NULL}}, {{0, NULL}, {0, NULL}}, 0, 0, false, 0};

#include "ua_types_generated.inc"

const char *UA_StatusCode_name(UA_StatusCode code) { return code == 0 ? "Good" : "Bad"; }

UA_Boolean UA_DataType_isNumeric(const UA_DataType *type) {
    return type->typeKind >= UA_DATATYPEKIND_SBYTE && type->typeKind <= UA_DATATYPEKIND_DOUBLE;
}
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *custom) {
    for(size_t i = 0; i < UA_TYPES_COUNT; i++)
        if(UA_NodeId_equal(&UA_TYPES[i].typeId, typeId)) return &UA_TYPES[i];
    for(; custom; custom = custom->next)
        for(size_t i = 0; i < custom->typesSize; i++)
            if(UA_NodeId_equal(&custom->types[i].typeId, typeId)) return &custom->types[i];
    return NULL;
}
const UA_DataType *UA_findDataType(const UA_NodeId *typeId) { return UA_findDataTypeWithCustom(typeId, NULL); }

/* ---------- strings ---------- */
UA_String UA_String_fromChars(const char *src) {
    UA_String s = {0, NULL};
    if(!src) return s;
    s.length = strlen(src);
    if(s.length == 0) { s.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return s; }
    s.data = (UA_Byte *)malloc(s.length);
    memcpy(s.data, src, s.length);
    return s;
}
UA_Boolean UA_String_isEmpty(const UA_String *s) { return s->length == 0 || s->data == NULL; }
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t length) {
    bs->length = 0; bs->data = NULL;
    if(!length) return UA_STATUSCODE_GOOD;
    bs->data = (UA_Byte *)malloc(length);
    bs->length = length;
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_String_append(UA_String *s, const UA_String s2) {
    if(!s2.length) return UA_STATUSCODE_GOOD;
    UA_Byte *b = (UA_Byte *)realloc(s->length ? s->data : NULL, s->length + s2.length);
    memcpy(b + s->length, s2.data, s2.length);
    s->data = b; s->length += s2.length;
    return UA_STATUSCODE_GOOD;
}
UA_Boolean UA_String_equal_ignorecase(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return false;
    for(size_t i = 0; i < a->length; i++) if(tolower(a->data[i]) != tolower(b->data[i])) return false;
    return true;
}

/* ---------- date time ---------- */
static int64_t daysFromCivil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    const int64_t era = (y >= 0 ? y : y - 399) / 400;
    const int64_t yoe = y - era * 400;
    const int64_t doy = (153 * (int64_t)(m + (m > 2 ? -3u : 9u)) + 2) / 5 + d - 1;
    const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts) {
    int64_t y = ts.year; int64_t m = (int64_t)ts.month - 1;
    y += m / 12; m %= 12; if(m < 0) { m += 12; y--; }
    int64_t days = daysFromCivil(y, (unsigned)(m + 1), 1) + (int64_t)ts.day - 1;
    int64_t secs = days * 86400 + (int64_t)ts.hour * 3600 + (int64_t)ts.min * 60 + ts.sec;
    /* years far outside of the range wrap around */
    uint64_t t = (uint64_t)UA_DATETIME_UNIX_EPOCH + (uint64_t)secs * (uint64_t)UA_DATETIME_SEC;
    t += (uint64_t)((int64_t)ts.milliSec * UA_DATETIME_MSEC + (int64_t)ts.microSec * UA_DATETIME_USEC + ts.nanoSec / 100);
    return (UA_DateTime)t;
}
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t) {
    UA_DateTimeStruct r; memset(&r, 0, sizeof(r));
    int64_t rel = t - UA_DATETIME_UNIX_EPOCH;
    int64_t secs = rel / UA_DATETIME_SEC, frac = rel % UA_DATETIME_SEC;
    if(frac < 0) { frac += UA_DATETIME_SEC; secs--; }
    r.nanoSec = (UA_UInt16)((frac % 10) * 100); r.microSec = (UA_UInt16)((frac / 10) % 1000); r.milliSec = (UA_UInt16)(frac / 10000);
    int64_t days = secs / 86400, rem = secs % 86400; if(rem < 0) { rem += 86400; days--; }
    r.hour = (UA_UInt16)(rem / 3600); r.min = (UA_UInt16)(rem / 60 % 60); r.sec = (UA_UInt16)(rem % 60);
    int64_t z = days + 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; int64_t doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = yoe + era * 400;
    int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100); int64_t mp = (5 * doy + 2) / 153;
    r.day = (UA_UInt16)(doy - (153 * mp + 2) / 5 + 1); r.month = (UA_UInt16)(mp < 10 ? mp + 3 : mp - 9);
    r.year = (UA_Int16)(y + (r.month <= 2));
    return r;
}
UA_DateTime UA_DateTime_now(void) { return UA_DATETIME_UNIX_EPOCH + (int64_t)time(NULL) * UA_DATETIME_SEC; }
UA_DateTime UA_DateTime_nowMonotonic(void) { return (int64_t)clock(); }

/* ---------- guid ---------- */
static int hexv(int c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'f') return c - 'a' + 10; if(c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
UA_StatusCode UA_Guid_parse(UA_Guid *g, const UA_String s) {
    memset(g, 0, sizeof(*g));
    if(s.length != 36) return UA_STATUSCODE_BADDECODINGERROR;
    UA_Byte nib[32]; size_t n = 0;
    for(size_t i = 0; i < 36; i++) {
        if(i == 8 || i == 13 || i == 18 || i == 23) { if(s.data[i] != '-') return UA_STATUSCODE_BADDECODINGERROR; continue; }
        int h = hexv(s.data[i]); if(h < 0) return UA_STATUSCODE_BADDECODINGERROR;
        nib[n++] = (UA_Byte)h;
    }
    for(size_t i = 0; i < 8; i++) g->data1 = g->data1 << 4 | nib[i];
    for(size_t i = 8; i < 12; i++) g->data2 = (UA_UInt16)(g->data2 << 4 | nib[i]);
    for(size_t i = 12; i < 16; i++) g->data3 = (UA_UInt16)(g->data3 << 4 | nib[i]);
    for(size_t i = 0; i < 8; i++) g->data4[i] = (UA_Byte)(nib[16 + 2 * i] << 4 | nib[17 + 2 * i]);
    return UA_STATUSCODE_GOOD;
}
UA_Guid UA_GUID(const char *chars) { UA_Guid g; UA_Guid_parse(&g, UA_STRING((char *)(uintptr_t)chars)); return g; }
static void guidText(const UA_Guid *g, char *out) {
    snprintf(out, 37, "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g->data1, g->data2, g->data3, g->data4[0], g->data4[1],
             g->data4[2], g->data4[3], g->data4[4], g->data4[5], g->data4[6], g->data4[7]);
}
static UA_StatusCode outText(const char *t, size_t n, UA_String *o) {
    if(o->length == 0) { UA_StatusCode r = UA_ByteString_allocBuffer(o, n); if(r) return r; }
    else if(o->length < n) return UA_STATUSCODE_BADENCODINGERROR;
    memcpy(o->data, t, n); o->length = n;
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Guid_print(const UA_Guid *g, UA_String *output) { char b[40]; guidText(g, b); return outText(b, 36, output); }

/* ---------- node ids ---------- */
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p) {
    if(p->namespaceIndex != 0) return false;
    switch(p->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return p->identifier.numeric == 0;
    case UA_NODEIDTYPE_STRING: case UA_NODEIDTYPE_BYTESTRING: return p->identifier.string.length == 0;
    case UA_NODEIDTYPE_GUID: return !memcmp(&p->identifier.guid, &UA_GUID_NULL, sizeof(UA_Guid));
    }
    return false;
}
static UA_Order ordStr(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return a->length < b->length ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->data == b->data || a->length == 0) return UA_ORDER_EQ;
    int c = memcmp(a->data, b->data, a->length);
    return c == 0 ? UA_ORDER_EQ : c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifierType != b->identifierType) return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    switch(a->identifierType) {
    case UA_NODEIDTYPE_NUMERIC:
        if(a->identifier.numeric == b->identifier.numeric) return UA_ORDER_EQ;
        return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
    case UA_NODEIDTYPE_GUID: {
        int c = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid));
        return c == 0 ? UA_ORDER_EQ : c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE; }
    default: return ordStr(&a->identifier.string, &b->identifier.string);
    }
}
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) {
    uint32_t h = 2166136261u ^ n->namespaceIndex; h *= 16777619u; h ^= (uint32_t)n->identifierType; h *= 16777619u;
    const UA_Byte *d; size_t l;
    if(n->identifierType == UA_NODEIDTYPE_NUMERIC) { d = (const UA_Byte *)&n->identifier.numeric; l = 4; }
    else if(n->identifierType == UA_NODEIDTYPE_GUID) { d = (const UA_Byte *)&n->identifier.guid; l = sizeof(UA_Guid); }
    else { d = n->identifier.string.data; l = n->identifier.string.length; }
    for(size_t i = 0; i < l; i++) { h ^= d[i]; h *= 16777619u; }
    return h;
}
static const char b64c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int b64v(int c) { const char *p = c ? strchr(b64c, c) : NULL; return p ? (int)(p - b64c) : -1; }
static UA_StatusCode fromB64(const UA_Byte *s, size_t n, UA_ByteString *out) {
    out->length = 0; out->data = NULL;
    if(n == 0) { out->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return UA_STATUSCODE_GOOD; }
    UA_Byte *b = (UA_Byte *)malloc(n); size_t o = 0; uint32_t acc = 0; int bits = 0; size_t pad = 0;
    for(size_t i = 0; i < n; i++) {
        if(s[i] == '=') { pad++; continue; }
        int v = b64v(s[i]);
        if(v < 0 || pad) { free(b); return UA_STATUSCODE_BADDECODINGERROR; }
        acc = acc << 6 | (uint32_t)v; bits += 6;
        if(bits >= 8) { bits -= 8; b[o++] = (UA_Byte)(acc >> bits); acc &= (1u << bits) - 1; }
    }
    if(o == 0) { free(b); return UA_STATUSCODE_BADDECODINGERROR; }
    out->data = b; out->length = o;
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    memset(id, 0, sizeof(*id));
    UA_NodeId r; memset(&r, 0, sizeof(r));
    const UA_Byte *p = str.data, *e = str.data + str.length;
    if(str.length < 2) return UA_STATUSCODE_BADDECODINGERROR;
    if(str.length > 3 && !memcmp(p, "ns=", 3)) {
        p += 3; uint32_t v = 0; const UA_Byte *st = p;
        while(p < e && isdigit(*p)) { v = v * 10 + (uint32_t)(*p - '0'); if(v > 0xFFFF) return UA_STATUSCODE_BADDECODINGERROR; p++; }
        if(p == st || p >= e || *p != ';') return UA_STATUSCODE_BADDECODINGERROR;
        p++; r.namespaceIndex = (UA_UInt16)v;
    }
    if(e - p < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    UA_Byte k = p[0]; p += 2;
    UA_String rest; rest.length = (size_t)(e - p); rest.data = (UA_Byte *)(uintptr_t)p;
    UA_StatusCode res = UA_STATUSCODE_GOOD;
    switch(k) {
    case 'i': {
        uint64_t v = 0; if(p == e) return UA_STATUSCODE_BADDECODINGERROR;
        while(p < e) { if(!isdigit(*p)) return UA_STATUSCODE_BADDECODINGERROR; v = v * 10 + (uint64_t)(*p - '0'); if(v > 0xFFFFFFFFu) return UA_STATUSCODE_BADDECODINGERROR; p++; }
        r.identifierType = UA_NODEIDTYPE_NUMERIC; r.identifier.numeric = (UA_UInt32)v; break; }
    case 's':
        r.identifierType = UA_NODEIDTYPE_STRING; res = UA_String_copy(&rest, &r.identifier.string); break;
    case 'g':
        r.identifierType = UA_NODEIDTYPE_GUID; res = UA_Guid_parse(&r.identifier.guid, rest); break;
    case 'b':
        r.identifierType = UA_NODEIDTYPE_BYTESTRING; res = fromB64(rest.data, rest.length, &r.identifier.byteString); break;
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    if(res != UA_STATUSCODE_GOOD) return res;
    *id = r;
    return UA_STATUSCODE_GOOD;
}
UA_NodeId UA_NODEID(const char *chars) {
    UA_NodeId id; UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id;
}
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output) {
    size_t cap = 64; if(id->identifierType == UA_NODEIDTYPE_STRING || id->identifierType == UA_NODEIDTYPE_BYTESTRING) cap += id->identifier.string.length * 2;
    char *b = (char *)malloc(cap); size_t n = 0;
    if(id->namespaceIndex) n += (size_t)snprintf(b, cap, "ns=%u;", id->namespaceIndex);
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: n += (size_t)snprintf(b + n, cap - n, "i=%u", id->identifier.numeric); break;
    case UA_NODEIDTYPE_STRING: memcpy(b + n, "s=", 2); n += 2; if(id->identifier.string.length) memcpy(b + n, id->identifier.string.data, id->identifier.string.length); n += id->identifier.string.length; break;
    case UA_NODEIDTYPE_GUID: memcpy(b + n, "g=", 2); n += 2; guidText(&id->identifier.guid, b + n); n += 36; break;
    case UA_NODEIDTYPE_BYTESTRING: {
        memcpy(b + n, "b=", 2); n += 2; const UA_Byte *d = id->identifier.byteString.data; size_t l = id->identifier.byteString.length;
        for(size_t i = 0; i < l; i += 3) {
            uint32_t v = (uint32_t)d[i] << 16 | (i + 1 < l ? (uint32_t)d[i + 1] << 8 : 0) | (i + 2 < l ? d[i + 2] : 0);
            b[n++] = b64c[v >> 18 & 63]; b[n++] = b64c[v >> 12 & 63];
            b[n++] = i + 1 < l ? b64c[v >> 6 & 63] : '='; b[n++] = i + 2 < l ? b64c[v & 63] : '='; }
        break; }
    }
    UA_StatusCode r = outText(b, n, output); free(b);
    return r;
}
UA_StatusCode UA_ExpandedNodeId_print(const UA_ExpandedNodeId *id, UA_String *output) { return UA_NodeId_print(&id->nodeId, output); }
UA_Boolean UA_ExpandedNodeId_isLocal(const UA_ExpandedNodeId *n) { return n->namespaceUri.length == 0 && n->serverIndex == 0; }

/* ---------- variant ---------- */
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type) { memset(v, 0, sizeof(*v)); v->type = type; v->data = p; }
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type) {
    void *n = UA_new(type); UA_StatusCode r = UA_copy(p, n, type); if(r) { free(n); return r; } UA_Variant_setScalar(v, n, type); return r; }
void UA_Variant_setArray(UA_Variant *v, void *array, size_t n, const UA_DataType *type) { memset(v, 0, sizeof(*v)); v->data = array; v->arrayLength = n; v->type = type; }
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t n, const UA_DataType *type) {
    void *c = NULL; UA_StatusCode r = UA_Array_copy(array, n, &c, type); if(r) return r; UA_Variant_setArray(v, c, n, type); return r; }
void UA_ExtensionObject_setValue(UA_ExtensionObject *eo, void *p, const UA_DataType *type) {
    memset(eo, 0, sizeof(*eo)); eo->encoding = UA_EXTENSIONOBJECT_DECODED; eo->content.decoded.type = type; eo->content.decoded.data = p; }

/* ---------- generic copy / clear ---------- */
void *UA_new(const UA_DataType *type) { return calloc(1, type->memSize ? type->memSize : 1); }
void *UA_Array_new(size_t size, const UA_DataType *type) { return size ? calloc(size, type->memSize) : UA_EMPTY_ARRAY_SENTINEL; }
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type) {
    if(size == 0) { *dst = src == NULL ? NULL : UA_EMPTY_ARRAY_SENTINEL; return UA_STATUSCODE_GOOD; }
    if(!type) return UA_STATUSCODE_BADINTERNALERROR;
    *dst = calloc(size, type->memSize);
    const UA_Byte *s = (const UA_Byte *)src; UA_Byte *d = (UA_Byte *)*dst;
    if(type->pointerFree) { memcpy(d, s, size * type->memSize); return UA_STATUSCODE_GOOD; }
    for(size_t i = 0; i < size; i++, s += type->memSize, d += type->memSize) UA_copy(s, d, type);
    return UA_STATUSCODE_GOOD;
}
void UA_Array_delete(void *p, size_t size, const UA_DataType *type) {
    if(!type->pointerFree) { UA_Byte *q = (UA_Byte *)p; for(size_t i = 0; i < size; i++, q += type->memSize) UA_clear(q, type); }
    free((void *)((uintptr_t)p & ~(uintptr_t)UA_EMPTY_ARRAY_SENTINEL));
}
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type) {
    memset(dst, 0, type->memSize);
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: {
        const UA_String *s = (const UA_String *)src; UA_String *d = (UA_String *)dst;
        UA_StatusCode r = UA_Array_copy(s->data, s->length, (void **)&d->data, &UA_TYPES[UA_TYPES_BYTE]); if(!r) d->length = s->length; return r; }
    case UA_DATATYPEKIND_NODEID: {
        const UA_NodeId *s = (const UA_NodeId *)src; UA_NodeId *d = (UA_NodeId *)dst; *d = *s;
        if(s->identifierType == UA_NODEIDTYPE_STRING || s->identifierType == UA_NODEIDTYPE_BYTESTRING) return UA_String_copy(&s->identifier.string, &d->identifier.string);
        return 0; }
    case UA_DATATYPEKIND_EXPANDEDNODEID: {
        const UA_ExpandedNodeId *s = (const UA_ExpandedNodeId *)src; UA_ExpandedNodeId *d = (UA_ExpandedNodeId *)dst;
        UA_NodeId_copy(&s->nodeId, &d->nodeId); UA_String_copy(&s->namespaceUri, &d->namespaceUri); d->serverIndex = s->serverIndex; return 0; }
    case UA_DATATYPEKIND_QUALIFIEDNAME: {
        const UA_QualifiedName *s = (const UA_QualifiedName *)src; UA_QualifiedName *d = (UA_QualifiedName *)dst;
        d->namespaceIndex = s->namespaceIndex; return UA_String_copy(&s->name, &d->name); }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: {
        const UA_LocalizedText *s = (const UA_LocalizedText *)src; UA_LocalizedText *d = (UA_LocalizedText *)dst;
        UA_String_copy(&s->locale, &d->locale); return UA_String_copy(&s->text, &d->text); }
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        const UA_ExtensionObject *s = (const UA_ExtensionObject *)src; UA_ExtensionObject *d = (UA_ExtensionObject *)dst; d->encoding = s->encoding;
        if(s->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) { UA_NodeId_copy(&s->content.encoded.typeId, &d->content.encoded.typeId); return UA_ByteString_copy(&s->content.encoded.body, &d->content.encoded.body); }
        if(!s->content.decoded.type) return 0;
        d->encoding = UA_EXTENSIONOBJECT_DECODED; d->content.decoded.type = s->content.decoded.type;
        return UA_Array_copy(s->content.decoded.data, 1, &d->content.decoded.data, s->content.decoded.type); }
    case UA_DATATYPEKIND_VARIANT: {
        const UA_Variant *s = (const UA_Variant *)src; UA_Variant *d = (UA_Variant *)dst;
        size_t n = s->arrayLength; if(UA_Variant_isScalar(s)) n = 1;
        UA_StatusCode r = s->type ? UA_Array_copy(s->data, n, &d->data, s->type) : 0; if(r) return r;
        d->arrayLength = s->arrayLength; d->type = s->type;
        if(s->arrayDimensions) { r = UA_Array_copy(s->arrayDimensions, s->arrayDimensionsSize, (void **)&d->arrayDimensions, &UA_TYPES[UA_TYPES_UINT32]); d->arrayDimensionsSize = s->arrayDimensionsSize; }
        return r; }
    case UA_DATATYPEKIND_DATAVALUE: { memcpy(dst, src, sizeof(UA_DataValue)); return UA_Variant_copy(&((const UA_DataValue *)src)->value, &((UA_DataValue *)dst)->value); }
    case UA_DATATYPEKIND_DIAGNOSTICINFO: {
        const UA_DiagnosticInfo *s = (const UA_DiagnosticInfo *)src; UA_DiagnosticInfo *d = (UA_DiagnosticInfo *)dst; *d = *s;
        UA_String_copy(&s->additionalInfo, &d->additionalInfo); d->innerDiagnosticInfo = NULL;
        if(s->innerDiagnosticInfo) { d->innerDiagnosticInfo = (UA_DiagnosticInfo *)calloc(1, sizeof(*d)); UA_copy(s->innerDiagnosticInfo, d->innerDiagnosticInfo, type); }
        return 0; }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t s = (uintptr_t)src, d = (uintptr_t)dst; UA_StatusCode r = 0;
        for(size_t i = 0; i < type->membersSize; i++) {
            const UA_DataTypeMember *m = &type->members[i]; const UA_DataType *mt = m->memberType; s += m->padding; d += m->padding;
            if(m->isArray) {
                size_t n = *(const size_t *)s; s += sizeof(size_t); size_t *dn = (size_t *)d; d += sizeof(size_t);
                r |= UA_Array_copy(*(void *const *)s, n, (void **)d, mt); *dn = n; s += sizeof(void *); d += sizeof(void *);
            } else if(m->isOptional && type->typeKind == UA_DATATYPEKIND_OPTSTRUCT) {
                if(*(void *const *)s) r |= UA_Array_copy(*(void *const *)s, 1, (void **)d, mt);
                s += sizeof(void *); d += sizeof(void *);
            } else { r |= UA_copy((const void *)s, (void *)d, mt); s += mt->memSize; d += mt->memSize; }
        }
        return r; }
    case UA_DATATYPEKIND_UNION: {
        uintptr_t s = (uintptr_t)src, d = (uintptr_t)dst; UA_UInt32 sel = *(const UA_UInt32 *)s; *(UA_UInt32 *)d = sel;
        if(sel == 0 || sel > type->membersSize) return 0;
        const UA_DataTypeMember *m = &type->members[sel - 1]; s += m->padding; d += m->padding;
        if(!m->isArray) return UA_copy((const void *)s, (void *)d, m->memberType);
        size_t n = *(const size_t *)s; *(size_t *)d = n;
        return UA_Array_copy(*(void *const *)(s + sizeof(size_t)), n, (void **)(d + sizeof(size_t)), m->memberType); }
    default: memcpy(dst, src, type->memSize); return 0;
    }
}
void UA_clear(void *p, const UA_DataType *type) {
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT:
        UA_Array_delete(((UA_String *)p)->data, ((UA_String *)p)->length, &UA_TYPES[UA_TYPES_BYTE]); break;
    case UA_DATATYPEKIND_NODEID: { UA_NodeId *n = (UA_NodeId *)p;
        if(n->identifierType == UA_NODEIDTYPE_STRING || n->identifierType == UA_NODEIDTYPE_BYTESTRING) UA_String_clear(&n->identifier.string); break; }
    case UA_DATATYPEKIND_EXPANDEDNODEID: UA_NodeId_clear(&((UA_ExpandedNodeId *)p)->nodeId); UA_String_clear(&((UA_ExpandedNodeId *)p)->namespaceUri); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: UA_String_clear(&((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: UA_String_clear(&((UA_LocalizedText *)p)->locale); UA_String_clear(&((UA_LocalizedText *)p)->text); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: { UA_ExtensionObject *e = (UA_ExtensionObject *)p;
        if(e->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) { UA_NodeId_clear(&e->content.encoded.typeId); UA_ByteString_clear(&e->content.encoded.body); }
        else if(e->encoding == UA_EXTENSIONOBJECT_DECODED && e->content.decoded.data) UA_delete(e->content.decoded.data, e->content.decoded.type);
        break; }
    case UA_DATATYPEKIND_VARIANT: { UA_Variant *v = (UA_Variant *)p;
        if(v->storageType != UA_VARIANT_DATA) break;
        if(v->type && v->data > UA_EMPTY_ARRAY_SENTINEL) { size_t n = v->arrayLength ? v->arrayLength : 1; UA_Array_delete(v->data, n, v->type); }
        if((void *)v->arrayDimensions > UA_EMPTY_ARRAY_SENTINEL) free(v->arrayDimensions);
        break; }
    case UA_DATATYPEKIND_DATAVALUE: UA_Variant_clear(&((UA_DataValue *)p)->value); break;
    case UA_DATATYPEKIND_DIAGNOSTICINFO: { UA_DiagnosticInfo *d = (UA_DiagnosticInfo *)p; UA_String_clear(&d->additionalInfo);
        if(d->innerDiagnosticInfo) UA_delete(d->innerDiagnosticInfo, type); break; }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t q = (uintptr_t)p;
        for(size_t i = 0; i < type->membersSize; i++) {
            const UA_DataTypeMember *m = &type->members[i]; const UA_DataType *mt = m->memberType; q += m->padding;
            if(m->isArray) { size_t n = *(size_t *)q; q += sizeof(size_t); UA_Array_delete(*(void **)q, n, mt); q += sizeof(void *); }
            else if(m->isOptional && type->typeKind == UA_DATATYPEKIND_OPTSTRUCT) { if(*(void **)q) UA_Array_delete(*(void **)q, 1, mt); q += sizeof(void *); }
            else { UA_clear((void *)q, mt); q += mt->memSize; }
        }
        break; }
    case UA_DATATYPEKIND_UNION: {
        uintptr_t q = (uintptr_t)p; UA_UInt32 sel = *(UA_UInt32 *)q;
        if(sel == 0 || sel > type->membersSize) break;
        const UA_DataTypeMember *m = &type->members[sel - 1]; q += m->padding;
        if(!m->isArray) UA_clear((void *)q, m->memberType);
        else UA_Array_delete(*(void **)(q + sizeof(size_t)), *(size_t *)q, m->memberType);
        break; }
    default: break;
    }
    memset(p, 0, type->memSize);
}
void UA_delete(void *p, const UA_DataType *type) { UA_clear(p, type); free(p); }

static UA_Order ordMem(const void *a, const void *b, size_t n) { int c = memcmp(a, b, n); return c == 0 ? UA_ORDER_EQ : c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE; }
#define ORDNUM(T) { T a = *(const T *)p1, b = *(const T *)p2; return a == b ? UA_ORDER_EQ : a < b ? UA_ORDER_LESS : UA_ORDER_MORE; }
UA_Order UA_order(const void *p1, const void *p2, const UA_DataType *type) {
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: case UA_DATATYPEKIND_BYTE: ORDNUM(UA_Byte)
    case UA_DATATYPEKIND_SBYTE: ORDNUM(UA_SByte)
    case UA_DATATYPEKIND_INT16: ORDNUM(UA_Int16)
    case UA_DATATYPEKIND_UINT16: ORDNUM(UA_UInt16)
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: ORDNUM(UA_Int32)
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: ORDNUM(UA_UInt32)
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: ORDNUM(UA_Int64)
    case UA_DATATYPEKIND_UINT64: ORDNUM(UA_UInt64)
    case UA_DATATYPEKIND_FLOAT: ORDNUM(UA_Float)
    case UA_DATATYPEKIND_DOUBLE: ORDNUM(UA_Double)
    case UA_DATATYPEKIND_GUID: return ordMem(p1, p2, sizeof(UA_Guid));
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: return ordStr((const UA_String *)p1, (const UA_String *)p2);
    case UA_DATATYPEKIND_NODEID: return UA_NodeId_order((const UA_NodeId *)p1, (const UA_NodeId *)p2);
    case UA_DATATYPEKIND_EXPANDEDNODEID: {
        const UA_ExpandedNodeId *a = (const UA_ExpandedNodeId *)p1, *b = (const UA_ExpandedNodeId *)p2;
        if(a->serverIndex != b->serverIndex) return a->serverIndex < b->serverIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
        UA_Order o = ordStr(&a->namespaceUri, &b->namespaceUri); return o ? o : UA_NodeId_order(&a->nodeId, &b->nodeId); }
    case UA_DATATYPEKIND_QUALIFIEDNAME: {
        const UA_QualifiedName *a = (const UA_QualifiedName *)p1, *b = (const UA_QualifiedName *)p2;
        if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
        return ordStr(&a->name, &b->name); }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: {
        const UA_LocalizedText *a = (const UA_LocalizedText *)p1, *b = (const UA_LocalizedText *)p2;
        UA_Order o = ordStr(&a->locale, &b->locale); return o ? o : ordStr(&a->text, &b->text); }
    case UA_DATATYPEKIND_STRUCTURE: {
        uintptr_t a = (uintptr_t)p1, b = (uintptr_t)p2;
        for(size_t i = 0; i < type->membersSize; i++) {
            const UA_DataTypeMember *m = &type->members[i]; a += m->padding; b += m->padding;
            if(m->isArray) { size_t n = *(size_t *)a, k = *(size_t *)b; if(n != k) return n < k ? UA_ORDER_LESS : UA_ORDER_MORE;
                a += sizeof(size_t); b += sizeof(size_t);
                for(size_t j = 0; j < n; j++) { UA_Order o = UA_order((char *)*(void **)a + j * m->memberType->memSize, (char *)*(void **)b + j * m->memberType->memSize, m->memberType); if(o) return o; }
                a += sizeof(void *); b += sizeof(void *);
            } else { UA_Order o = UA_order((void *)a, (void *)b, m->memberType); if(o) return o; a += m->memberType->memSize; b += m->memberType->memSize; }
        }
        return UA_ORDER_EQ; }
    default: return ordMem(p1, p2, type->memSize);
    }
}
