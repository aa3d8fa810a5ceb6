#include "mem/mem_debug.h"
#include "memprog.h"
#define UNIT unit_c2
#define UNIT_FILE "/a_rather_long_folder_name/a_rather_long_folder_name/a_rather_long_folder_name/a_rather_long_folder_name/a_rather_long_folder_name/a_rather_long_folder_name/c2.c"
#include "memunit.inc"
