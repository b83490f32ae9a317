#include "types_generated.h"
