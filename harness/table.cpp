#include "core.h"
#include "table.inc"
