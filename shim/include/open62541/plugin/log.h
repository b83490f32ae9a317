#ifndef SHIM_UA_LOG_H
#define SHIM_UA_LOG_H
#include "../types.h"
_UA_BEGIN_DECLS
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300, UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SECURECHANNEL, UA_LOGCATEGORY_SESSION, UA_LOGCATEGORY_SERVER, UA_LOGCATEGORY_CLIENT, UA_LOGCATEGORY_USERLAND, UA_LOGCATEGORY_SECURITYPOLICY, UA_LOGCATEGORY_EVENTLOOP, UA_LOGCATEGORY_PUBSUB, UA_LOGCATEGORY_DISCOVERY } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
#define SHIM_LOGFN(NAME, LEVEL) \
static inline __attribute__((format(printf, 3, 4))) void NAME(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) { \
    if(!logger || !logger->log) return; va_list args; va_start(args, msg); logger->log(logger->context, LEVEL, category, msg, args); va_end(args); }
SHIM_LOGFN(UA_LOG_TRACE, UA_LOGLEVEL_TRACE)
SHIM_LOGFN(UA_LOG_DEBUG, UA_LOGLEVEL_DEBUG)
SHIM_LOGFN(UA_LOG_INFO, UA_LOGLEVEL_INFO)
SHIM_LOGFN(UA_LOG_WARNING, UA_LOGLEVEL_WARNING)
SHIM_LOGFN(UA_LOG_ERROR, UA_LOGLEVEL_ERROR)
SHIM_LOGFN(UA_LOG_FATAL, UA_LOGLEVEL_FATAL)
_UA_END_DECLS
#endif
