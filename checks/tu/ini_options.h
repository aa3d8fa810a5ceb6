// The options of one build of ini_reader.c / ini_parser.c.
#define PASTE2(a, b) a##b
#define PASTE(a, b) PASTE2(a, b)
#define ini_reader_parse PASTE(ini_parse_, CFG)
#define ini_reader_parse_file PASTE(ini_parse_file_, CFG)
#define ini_reader_parse_stream PASTE(ini_parse_stream_, CFG)
#define ini_reader_parse_string PASTE(ini_parse_string_, CFG)
#define INI_ALLOW_MULTILINE (!!((BITS) & 1))
#define INI_ALLOW_BOM (!!((BITS) & 2))
#define INI_ALLOW_INLINE_COMMENTS (!!((BITS) & 4))
#if (BITS) & 8
#define INI_START_COMMENT_PREFIXES "%#"
#define INI_INLINE_COMMENT_PREFIXES "#%"
#endif
#define INI_STOP_ON_FIRST_ERROR (!!((BITS) & 16))
#define INI_CALL_HANDLER_ON_NEW_SECTION (!!((BITS) & 32))
#define INI_ALLOW_NO_VALUE (!!((BITS) & 64))
#if (BITS) & 128
#define INI_HANDLER_LINENO 1
#endif
#define INI_USE_STACK ((MEM) == 0)
#define INI_ALLOW_REALLOC ((MEM) == 2 || (MEM) == 4)
#define INI_CUSTOM_ALLOCATOR ((MEM) >= 3)
#ifdef MAXLINE
#define INI_MAX_LINE MAXLINE
#endif
#ifdef INITIAL
#define INI_INITIAL_ALLOC INITIAL
#endif
