#ifndef SHIM_UA_LOG_STDOUT_H
#define SHIM_UA_LOG_STDOUT_H
#include "log.h"
_UA_BEGIN_DECLS
extern const UA_Logger UA_Log_Stdout_;
extern const UA_Logger *UA_Log_Stdout;
UA_Logger UA_Log_Stdout_withLevel(UA_LogLevel minlevel);
_UA_END_DECLS
#endif
