#ifndef SHIM_UA_SERVER_CONFIG_DEFAULT_H
#define SHIM_UA_SERVER_CONFIG_DEFAULT_H
#include "server.h"
_UA_BEGIN_DECLS
UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *config);
UA_StatusCode UA_ServerConfig_setMinimal(UA_ServerConfig *config, UA_UInt16 portNumber, const UA_ByteString *certificate);
_UA_END_DECLS
#endif
