// ini_parser.c on top of build CFG of ini_reader.c, see ini_config.c.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ini_options.h"
#define ini_parser_is_file_path PASTE(ini_parser_is_file_path_, CFG)
#define ini_parser_parse_str PASTE(ini_parser_parse_str_, CFG)
#define ini_parser_create PASTE(ini_parser_create_, CFG)
#define ini_parser_parse_file PASTE(ini_parser_parse_file_, CFG)
#define ini_parser_foreach PASTE(ini_parser_foreach_, CFG)
#define ini_parser_put_string PASTE(ini_parser_put_string_, CFG)
#define ini_parser_get_string PASTE(ini_parser_get_string_, CFG)
#define ini_parser_has_section_key PASTE(ini_parser_has_section_key_, CFG)
#define ini_parser_has_section PASTE(ini_parser_has_section_, CFG)
#define ini_parser_get_bool PASTE(ini_parser_get_bool_, CFG)
#define ini_parser_get_double PASTE(ini_parser_get_double_, CFG)
#define ini_parser_get_float PASTE(ini_parser_get_float_, CFG)
#define ini_parser_get_int PASTE(ini_parser_get_int_, CFG)
#define ini_parser_get_long PASTE(ini_parser_get_long_, CFG)
#define ini_parser_get_long_long PASTE(ini_parser_get_long_long_, CFG)
#define ini_parser_delete_by_section_key PASTE(ini_parser_delete_by_section_key_, CFG)
#define ini_parser_delete_section PASTE(ini_parser_delete_section_, CFG)
#define ini_parser_dump_to_mem PASTE(ini_parser_dump_to_mem_, CFG)
#define ini_parser_dump PASTE(ini_parser_dump_, CFG)
#define ini_parser_save PASTE(ini_parser_save_, CFG)
#define ini_parser_destroy PASTE(ini_parser_destroy_, CFG)
#include "../src/file/ini_parser.c"
#include "ini_config.h"
static void *ini_config_parse(const char *t) { return ini_parser_parse_str(t); }
static void *ini_config_parse_file(const char *f) { return ini_parser_parse_file(f); }
static int ini_config_foreach(void *p, int (*h)(const char *, const char *, const char *, const void *), void *user) { return ini_parser_foreach((ini_parser_handle)p, (ini_parser_handler)h, user); }
static void ini_config_destroy(void *p) { ini_parser_handle h = (ini_parser_handle)p; ini_parser_destroy(&h); }
const struct ini_parser_config PASTE(ini_parser_config_, CFG) = {ini_config_parse, ini_config_parse_file, ini_config_foreach, ini_config_destroy};
