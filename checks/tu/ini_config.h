// One build of ini_reader.c, with the build options of inc/file/ini_reader.h chosen by checks/tu/ini_config.c.
#pragma once
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*ini_any_handler)(void *user, const char *section, const char *name, const char *value, int lineno);   // lineno -1: not told
typedef char *(*ini_any_reader)(char *str, int num, void *stream);
struct ini_config {
  int multiline, bom, inline_comments, stop, new_section, no_value, lineno, heap, grow, custom, max_line, initial;
  const char *start_prefixes, *inline_prefixes;
  int (*path)(const char *, ini_any_handler, void *), (*file)(FILE *, ini_any_handler, void *), (*stream)(ini_any_reader, void *, ini_any_handler, void *), (*string)(const char *, ini_any_handler, void *);
};
struct ini_parser_config { void *(*parse)(const char *), *(*parse_file)(const char *); int (*foreach)(void *, int (*)(const char *, const char *, const char *, const void *), void *); void (*destroy)(void *); };
void *ini_mem_malloc(size_t), *ini_mem_realloc(void *, size_t); void ini_mem_free(void *);   // provided by the check
#ifdef __cplusplus
}
#endif
