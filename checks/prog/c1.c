#include "mem/mem_debug.h"
#include "memprog.h"
#define UNIT unit_c1
#define UNIT_FILE "some/folder/c1.c"
#include "memunit.inc"
