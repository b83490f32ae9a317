#ifndef SHIM_UA_UTIL_H
#define SHIM_UA_UTIL_H
#include "types.h"
_UA_BEGIN_DECLS
UA_StatusCode UA_String_append(UA_String *s, const UA_String s2);
UA_Boolean UA_String_equal_ignorecase(const UA_String *a, const UA_String *b);
_UA_END_DECLS
#endif
