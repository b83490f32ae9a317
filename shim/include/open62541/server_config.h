#include "server.h"
