// CFG: number of this build; BITS: on/off options; MEM: 0 stack, 1 heap, 2 heap that grows, +2 the same with custom functions;
// MAXLINE, INITIAL: sizes.  BITS 1 multiline, 2 BOM, 4 inline comments, 8 other comment characters, 16 stop, 32 new section,
// 64 no value, 128 line number
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "ini_config.h"
#include "ini_options.h"
#if (MEM) >= 3
#define ini_reader_malloc ini_mem_malloc
#define ini_reader_free ini_mem_free
#define ini_reader_realloc ini_mem_realloc
#endif
#define malloc ini_mem_malloc
#define free ini_mem_free
#define realloc ini_mem_realloc
#include "../src/file/ini_reader.c"
struct adapter { ini_any_handler h; void *user; };
static int adapt(void *user, const char *s, const char *n, const char *v
#if INI_HANDLER_LINENO
                 , int lineno) { struct adapter *a = user; return a->h(a->user, s, n, v, lineno); }
#else
                 ) { struct adapter *a = user; return a->h(a->user, s, n, v, -1); }
#endif
static int ini_config_path(const char *p, ini_any_handler h, void *u) { struct adapter a = {h, u}; return ini_reader_parse(p, adapt, &a); }
static int ini_config_file(FILE *f, ini_any_handler h, void *u) { struct adapter a = {h, u}; return ini_reader_parse_file(f, adapt, &a); }
static int ini_config_stream(ini_any_reader r, void *st, ini_any_handler h, void *u) { struct adapter a = {h, u}; return ini_reader_parse_stream((ini_reader)r, st, adapt, &a); }
static int ini_config_string(const char *t, ini_any_handler h, void *u) { struct adapter a = {h, u}; return ini_reader_parse_string(t, adapt, &a); }
const struct ini_config PASTE(ini_config_, CFG) = {INI_ALLOW_MULTILINE, INI_ALLOW_BOM, INI_ALLOW_INLINE_COMMENTS, INI_STOP_ON_FIRST_ERROR, INI_CALL_HANDLER_ON_NEW_SECTION, INI_ALLOW_NO_VALUE, !!((BITS) & 128), !INI_USE_STACK, INI_ALLOW_REALLOC, INI_CUSTOM_ALLOCATOR, INI_MAX_LINE, INI_INITIAL_ALLOC, INI_START_COMMENT_PREFIXES, INI_INLINE_COMMENT_PREFIXES, ini_config_path, ini_config_file, ini_config_stream, ini_config_string};
