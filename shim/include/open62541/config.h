/* Stand-in for the parts of open62541 1.4 the nodeset loader uses. See /verif/DESIGN.md. */
#ifndef SHIM_UA_CONFIG_H
#define SHIM_UA_CONFIG_H
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <assert.h>
#define UA_OPEN62541_VER_MAJOR 1
#define UA_OPEN62541_VER_MINOR 4
#define UA_OPEN62541_VER_PATCH 6
#define UA_ENABLE_METHODCALLS
#define UA_ENABLE_TYPEDESCRIPTION
#define UA_ENABLE_NODEMANAGEMENT
#define UA_ENABLE_PARSING
#define UA_EXPORT
#define UA_INLINABLE(decl, impl) static inline decl impl
#define UA_malloc malloc
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_free free
#define UA_assert(x) assert(x)
#define UA_INTERNAL_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_DEPRECATED
#define UA_RESTRICT restrict
#ifdef __cplusplus
#define _UA_BEGIN_DECLS extern "C" {
#define _UA_END_DECLS }
#else
#define _UA_BEGIN_DECLS
#define _UA_END_DECLS
#endif
#endif
