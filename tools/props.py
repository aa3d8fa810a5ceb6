#!/usr/bin/env python3
"""Single source of properties.jsonl and of the per-property part of MANIFEST.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mechanism, observe=None, tech=None, note=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe or [], tech=tech, note=note, level=level))

WEAK = "The repository's only tests are the demo cases of src_demo, which "

p("C01", "ring_buf is an all-or-nothing byte FIFO of capacity size-1",
  "Bytes come out of a ring_buf exactly once and in the order they went in, for any interleaving of write, read, peek, discard and clear, whether the ring owns its memory or lives in the caller's. A request is served completely or refused with 0 and no effect: a write exactly when it exceeds the free space, a read/peek/discard exactly when it exceeds what is stored; peek consumes nothing, clear empties. The reported readable and writable amounts always add up to the capacity, and nothing outside the given memory is touched.",
  ["histories", "inputs"], "every history of calls, every size >= 3, every request length including 0 and more than fits",
  WEAK + "push a few fixed-size messages; wrap position, exact fill and refused requests at every offset are not sampled.",
  ["src/ring/ring_buf.c", "inc/ring/ring_buf.h"], [("offset arithmetic modulo size with one spare byte", "src/ring/ring_buf.c ring_buf_write / internal_ring_buf_read")],
  ["ring_buf_read/peek output", "ring_buf_available_read/write", "AddressSanitizer"], "model-based stateful property testing (position-counter model), ASan")

p("C02", "RingBuffer is a byte FIFO that serves as much as fits, across counter wrap",
  "A RingBuffer returns exactly the bytes written, in order, for any interleaving of write, read, peek, discard and clear; each call moves min(request, available) bytes and reports that number. Its capacity is the next power of two of the requested size (the previous one for caller-provided memory), and the reported readable, writable, empty and full states agree with the bytes stored at all times. All of this stays true when its 32-bit positions run over after 4 GiB of traffic.",
  ["histories", "inputs"], "every history of calls, every capacity and request length, any amount of past traffic including more than 2^32 bytes",
  WEAK + "move a few kilobytes; no test gets near the 32-bit wrap or checks partial transfers at every offset.",
  ["src/ring/ringbuffer.c", "inc/ring/ringbuffer.h"], [("free running 32-bit in/out positions masked by a power-of-two size", "src/ring/ringbuffer.c RingBuffer_write / RingBuffer_read_internal")],
  ["RingBuffer_read/peek output", "RingBuffer_available_*", "RingBuffer_real_capacity"], "model-based stateful property testing incl. >4 GiB histories, ASan")

p("C03", "One producer and one consumer never lose, repeat or tear data",
  "With one thread writing and one thread reading concurrently and no locks, ring_buf and RingBuffer deliver every byte exactly once and in order, and msg_queue and fixed_msg_queue deliver every accepted message exactly once, in order and intact, whatever the interleaving. A reader never sees bytes that were not completely written, and a writer never overwrites bytes that were not yet read.",
  ["schedules", "histories"], "every interleaving of one producer and one consumer at the granularity of single loads and stores, every sequence of request sizes",
  WEAK + "run a producer and a consumer under whatever schedule the kernel gives them and check almost nothing about the data.",
  ["src/ring/ring_buf.c", "src/ring/ringbuffer.c", "src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"],
  [("data is copied before the write offset is published, and after the read offset is read", "src/ring/ring_buf.c, src/ring/ringbuffer.c"), ("a message is published by a single offset update", "src/ring/msg_queue.c")],
  ["bytes and messages received by the consumer"], "schedule-controlled property testing: every library load/store is a preemption point chosen by the generator",
  "Interleavings are sequentially consistent; weak-memory and compiler reorderings are not explored.")

p("C04", "autocover buffer returns the latest bytes or says they are gone",
  "After any history of writes and reads, reading a range of the autocover buffer that is still held (neither overwritten nor consumed by an earlier read; positions are taken modulo the capacity) returns exactly the bytes written there, wrapping as needed, and consumes it with everything older. A position that was overwritten or consumed is reported as covered, a range beyond what was written (also one that starts at its very end) as not enough data; neither changes anything or delivers bytes. Available-read amounts agree with that at every wrap, and a locked buffer releases its lock on every path, so a concurrent writer and reader never tear data.",
  ["histories", "inputs"], "every history of write lengths and read positions/lengths",
  WEAK + "read from a writer thread for 80 seconds of wall-clock time and ignore the contents.",
  ["src/ring/autocover_buffer.c", "inc/ring/autocover_buffer.h"], [("position bookkeeping modulo the buffer size", "src/ring/autocover_buffer.c"), ("lock hooks around each operation", "src/ring/autocover_buffer.c")],
  ["autocover_buffer_read result and data", "autocover_buffer_available_read"], "model-based stateful property testing, ASan")

p("C05", "msg_queue and fixed_msg_queue are FIFO queues of whole messages",
  "Messages leave a msg_queue or fixed_msg_queue exactly once, unchanged and in the order they were pushed. A push that does not fit is refused as full and a pop from nothing (or into a buffer that is too small) is refused, each with its documented status and without changing the queue; next-message size, message counts and free amounts always agree with the contents. clear empties the queue, destroy releases everything.",
  ["histories", "inputs"], "every history of push/pop/next-size/available/clear with every message length",
  WEAK + "push one message at a time of one size.",
  ["src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"], [("length-prefixed records in a ring", "src/ring/msg_queue.c"), ("fixed-size records in a RingBuffer", "src/ring/fixed_msg_queue.c")],
  ["return codes", "popped bytes"], "model-based stateful property testing, ASan")

p("C06", "msg_queue_handler delivers accepted messages in order and shuts down cleanly",
  "Each message accepted by msg_queue_handler_push is delivered to the callback exactly once, intact and in push order, of any length that fits the queue (also beyond the initial buffer of the worker), and when callbacks are slow. Status callbacks arrive as ready first and about-to-stop last, and nothing is delivered outside of that; a nonzero callback result stops the handler for good and later pushes are refused. Destroy always returns, joins the worker, delivers nothing afterwards, and what was delivered is a prefix of what was accepted.",
  ["schedules", "histories"], "every interleaving of the pusher, worker and destroyer, every sequence of message sizes and callback results",
  WEAK + "push a handful of messages and sleep.",
  ["src/ring/msg_queue_handler.c"], [("semaphore around an SPSC message ring, growing pop buffer", "src/ring/msg_queue_handler.c")],
  ["callback sequence", "push return codes"], "schedule-controlled stateful property testing with a virtual scheduler, ASan")

p("C07", "fixed_msg_queue_handler delivers in order; clear drops only queued messages",
  "Each message accepted by fixed_msg_queue_handler_push is delivered to the callback exactly once, intact and in order, unless a clear (or destroy) dropped it while it was still queued; a message pushed after clear returned is delivered. A full queue refuses the push with its documented status and loses nothing. Destroy always returns, joins the worker and delivers nothing afterwards, and a callback asking to stop ends delivery.",
  ["schedules", "histories"], "every interleaving of one pusher, clearer, worker and destroyer; every capacity",
  WEAK + "push a handful of messages and sleep.",
  ["src/ring/fixed_msg_queue_handler.c", "src/ring/fixed_msg_queue.c"], [("semaphore tokens per message plus ring", "src/ring/fixed_msg_queue_handler.c")],
  ["callback sequence", "push return codes"], "schedule-controlled stateful property testing with a virtual scheduler, ASan")

p("C08", "thpool runs every job exactly once; wait, pause and destroy mean what they say",
  "Every job added to a thpool runs exactly once, with its argument, on one of at most N worker threads, in submission order when there is one worker. thpool_wait returns only when every job added before it has finished, and does return; jobs added while paused do not start until resume, after which all of them run, and pausing, resuming, creating or destroying a pool concerns that pool only. thpool_destroy returns after the running jobs ended, and no job starts, and no memory of the pool is touched, afterwards.",
  ["schedules", "histories"], "every interleaving of submitters, workers, wait/pause/resume/destroy, every number of threads and jobs (jobs may add jobs)",
  WEAK + "submit one batch and sleep.",
  ["src/thread/thpool.c", "inc/thread/thpool.h"], [("job queue with binary semaphore, thread counters and condition variable", "src/thread/thpool.c")],
  ["job execution log", "return of thpool_wait / thpool_destroy"], "schedule-controlled stateful property testing with a virtual scheduler, ASan")

p("C09", "mplite hands out disjoint, aligned, intact blocks and gets all memory back",
  "Blocks returned by mplite lie inside the caller's memory, are aligned, never overlap while live, are at least as large as requested and keep their contents until freed or reallocated, and realloc preserves the common prefix. After any sequence of calls, freeing everything makes the whole pool available again, so that a request that succeeded on the fresh pool succeeds again. Statistics agree with the history and a failed request returns NULL and changes nothing.",
  ["histories", "inputs"], "every sequence of malloc/free/realloc with every size on every pool size and minimum block size",
  WEAK + "do one pattern of allocations on one pool.",
  ["src/mem/mplite.c", "inc/mem/mplite.h"], [("binary buddy allocator: free lists, control bytes, coalescing", "src/mem/mplite.c")],
  ["addresses and contents of blocks", "mplite statistics"], "model-based stateful property testing against an interval model, ASan")

p("C10", "mplite with a lock is safe to share between threads",
  "With a lock given at initialisation, every operation of mplite that allocates, reallocates or frees changes the pool's bookkeeping only inside the lock, never takes it twice and releases it on every path (including failure), so that any number of threads can allocate, reallocate and free concurrently with the single-thread guarantees intact.",
  ["schedules", "histories"], "every interleaving of several threads at the granularity of single loads and stores",
  WEAK + "use mplite from one thread.",
  ["src/mem/mplite.c"], [("acquire/release hooks around each public operation", "src/mem/mplite.c")],
  ["lock hook balance", "block disjointness and contents"], "schedule-controlled property testing, lock-balance monitor")

p("C11", "The tracked allocator accounts for every byte and preserves contents",
  "With the allocation tracker on, blocks returned by the library's malloc/calloc/realloc/strdup/strndup functions are fully usable for the requested size, zeroed for calloc, equal to the source for strdup, and realloc keeps the common prefix. The tracker's account holds exactly the live blocks with at least their requested sizes at all times and is empty once all are freed; the same calls work unchanged with the tracker off.",
  ["histories", "inputs"], "every sequence of allocator calls with every size, tracker on or off, from any thread",
  WEAK + "run with the tracker compiled in but compare no totals.",
  ["src/mem/allocator.c", "src/mem/allocation_tracker.c"], [("size and canary bookkeeping per allocation in a hashmap", "src/mem/allocation_tracker.c")],
  ["allocation_tracker_expect_no_allocations / reset result", "block contents"], "model-based stateful property testing, ASan")

p("C12", "The allocation tracker detects overruns and double frees, and nothing else",
  "With the tracker on, freeing a block whose bytes immediately before or after the requested size were overwritten, freeing a block twice or freeing something that was never allocated stops the program with a diagnostic; any program that does none of these is never stopped.",
  ["histories", "fault_sequences"], "every allocation size, every corrupted canary byte and value, every position in a history",
  WEAK + "never corrupt anything.",
  ["src/mem/allocation_tracker.c", "src/mem/allocator.c"], [("canary bytes on both sides and a live map", "src/mem/allocation_tracker.c")],
  ["process abort or not"], "fault injection over generated histories, forked oracle", level="fault_enumeration")

p("C13", "hash_map behaves like a map and releases keys and values exactly once",
  "After any history of put, get, remove, clear, foreach and size the map answers like a mathematical map under the given hash and equality, whatever the number of buckets and collisions; its size is the number of keys, and foreach visits each entry once and stops everywhere when its callback says so. Every stored key and value is passed to the free functions exactly once (an overwritten value at once, the rest on remove, clear or free; the key put first stays), and a map with a lock takes and releases it around every operation. The library's hash functions give equal keys (strings by content, integers and pointers by value) equal hashes.",
  ["histories", "inputs"], "every history over every key set, hash function (incl. constant), bucket count",
  WEAK + "insert and look up a few distinct keys.",
  ["src/data/hashmap.c", "inc/data/hashmap.h"], [("bucket lists with key comparison", "src/data/hashmap.c")],
  ["return values", "free callbacks", "lock hooks"], "model-based stateful property testing, ASan")

p("C14", "list behaves like a sequence and frees each dropped element once",
  "After any history of append, prepend, insert-after, remove, clear, foreach and node walks, the list's length, front, back, membership and traversal order equal those of a mathematical sequence. Every element removed by the list is passed to its free function exactly once, and foreach stops where the callback says so and returns that node.",
  ["histories"], "every history of list calls",
  WEAK + "append and print a few elements.",
  ["src/data/list.c"], [("singly linked nodes with head, tail and length", "src/data/list.c")],
  ["return values and traversals", "free callback calls"], "model-based stateful property testing, ASan")

p("C15", "array grows without limit and keeps every element",
  "Elements appended to an array stay at their index with their exact bytes across any number of growths, the length equals the number of successful appends, and array_at/array_ptr address consecutive elements of the given size. All memory is released by array_free.",
  ["histories", "inputs"], "every element size and every number of appends",
  WEAK + "append a few integers within the initial capacity.",
  ["src/data/array.c"], [("storage growing by half, with an initial inline buffer", "src/data/array.c")],
  ["array_at contents, array_length"], "model-based stateful property testing, ASan")

p("C16", "base64 encode/decode are exact inverses and match RFC 4648",
  "Encoding any non-empty byte string gives its RFC 4648 base64 form with padding, of the announced length and NUL-terminated, and decoding that gives back exactly the original bytes and length. Decoding covers any text up to its first character outside the alphabet, reports the number of bytes decoded and never writes outside its output.",
  ["inputs"], "every byte string of every length (exhaustively up to 2 bytes)",
  WEAK + "encode one fixed sentence.",
  ["src/data/base64.c"], [("3-byte/4-char group coding", "src/data/base64.c")],
  ["encoded text", "decoded bytes"], "round-trip and differential property testing against a reference codec, ASan")

p("C17", "URL encoding round-trips and stays inside its buffers",
  "Encoding any byte string yields only unreserved characters, '+' for space and %XX escapes, or fails when it does not fit; decoding it gives back the original bytes. With an output buffer of any size neither direction writes outside it and the output is terminated. Decoding can be resumed from the reported source position (after a full buffer, or an escape cut off at the end) so that the pieces add up to the complete result, and illegal characters and escapes are rejected.",
  ["inputs", "histories"], "every byte string, every output capacity, every way of resuming",
  WEAK + "encode one URL into a large buffer.",
  ["src/net/url_encoder_decoder.c"], [("per-character escaping with capacity check and last source position", "src/net/url_encoder_decoder.c")],
  ["output bytes", "reported position"], "round-trip and differential property testing, ASan")

p("C18", "Bounded string copies never overflow and always terminate",
  "strlcpy and strlcat never write beyond the given size, terminate whenever the size allows it, copy the longest prefix that fits and return the length they tried to create, for any source, destination contents and size including 0.",
  ["inputs"], "every source, destination prefix and size",
  WEAK + "copy strings that fit.",
  ["src/mem/strings.c"], [("BSD strlcpy/strlcat", "src/mem/strings.c")],
  ["buffer contents", "return value"], "differential property testing against a reference, ASan")

p("C19", "String split, replace, trim and UTF-8 length match their definition",
  "strsplit returns exactly the non-empty fields between delimiter characters, in order and at most as many as asked; strreplace replaces every non-overlapping occurrence from the left and nothing else (an empty pattern occurs nowhere); strtrim removes exactly the surrounding whitespace; utf8 length counts the characters of valid UTF-8. For any input they terminate and stay inside their buffers.",
  ["inputs"], "every subject, pattern, replacement and delimiter string",
  WEAK + "split and replace one fixed string.",
  ["src/mem/strings.c"], [("scanning loops", "src/mem/strings.c")],
  ["returned strings"], "differential property testing against reference implementations, ASan")

p("C20", "stringbuilder holds exactly the concatenation of what was appended",
  "After any sequence of appends of characters, strings, prefixes of strings and formatted text, and clear, the builder's length and text equal the reference string, NUL-terminated, whatever its length. Memory grows as needed, and nothing beyond the given source length is read.",
  ["histories", "inputs"], "every sequence of builder calls",
  WEAK + "append a few short strings.",
  ["src/mem/stringbuilder.c"], [("growing buffer", "src/mem/stringbuilder.c")],
  ["stringbuilder text and length"], "model-based stateful property testing, ASan")

p("C21", "str_params is a typed key-value store",
  "After any history of adding, getting and deleting string, integer, floating-point keys a str_params store answers like a map of the last value written per key: has-key, get (string, int, double; whole-string numbers in any C base) and delete results match, adding to an existing key replaces its value, and missing keys, non-numeric values and too small outputs are reported as errors without touching the output. Everything is released on destroy.",
  ["histories", "inputs"], "every history over every key and value (keys free of '=' and the separator; numbers within the range of the type)",
  WEAK + "set a few parameters once.",
  ["src/mem/str_params.c"], [("hashmap of strings with numeric formatting and parsing", "src/mem/str_params.c")],
  ["return codes", "values"], "model-based stateful property testing, ASan, leak accounting")

p("C22", "str_params text form parses back to the same store",
  "Parsing 'k=v;k2=v2' text (with any separator character) yields exactly the listed pairs (last one wins, empty and key-less items skipped, a key without '=' has an empty value), and to_str of any store parses back to an equal store, str_params_dump logs each pair once. No input text makes parsing read or write out of bounds or leak.",
  ["inputs"], "every text, every store whose keys and values contain no separators",
  WEAK + "parse one fixed string.",
  ["src/mem/str_params.c"], [("strtok over ';' and first '='", "src/mem/str_params.c")],
  ["stores compared key by key"], "round-trip and differential property testing, structured fuzzing, ASan, leak accounting")

p("C23", "ini_parser store answers like an ordered two-level map",
  "After any history of put, get, has, delete key and delete section (string, int, bool, double), the store answers like an ordered map of sections to ordered key-value lists (names ignore case and are significant in their first 63 characters, values keep their first 255): puts are seen by gets, overwrites replace in place, deletes remove exactly what was named, errors are reported with their documented code, and foreach visits every pair once in order and stops when the handler says so. No history touches freed memory or leaks.",
  ["histories", "inputs"], "every history over sections, keys and values, including operations on the section used last",
  WEAK + "read one file and change one key.",
  ["src/file/ini_parser.c"], [("linked sections and properties with a last-used-section cache", "src/file/ini_parser.c")],
  ["return codes", "values", "foreach sequence"], "model-based stateful property testing, ASan, leak accounting")

p("C24", "ini_parser dump and save parse back to the same configuration",
  "Dumping any store to text, or saving it to a file, and parsing the result gives a store with the same sections, keys and values in the same order. A save that cannot write everything reports failure, and saving never leaks a file handle.",
  ["inputs", "fault_sequences"], "every store within the format's length limits; every write error",
  WEAK + "save one small file.",
  ["src/file/ini_parser.c", "src/file/ini_reader.c"], [("dump to stringbuilder and reparse through ini_reader", "src/file/ini_parser.c")],
  ["reparsed store", "return code with failing I/O"], "round-trip property testing, write-fault injection, ASan")

p("C25", "ini_reader parses by its grammar, identically from file, stream and string",
  "For any text, parsing reports exactly the section/name/value triples its documented grammar defines (comments, inline comments, multi-line values, BOM, whitespace, ':' and '='), in order, and returns the number of the first bad line; a handler returning 0 counts as an error on its line. Parsing the same text from a string, an open file, a path or a custom reader gives the same result, and no input makes it read or write out of bounds. ini_parser refuses what the reader refuses, and tells a path from a text.",
  ["inputs"], "every text (grammar-generated and arbitrary bytes), every handler result",
  WEAK + "parse one well-formed file.",
  ["src/file/ini_reader.c"], [("line reader with fixed buffers", "src/file/ini_reader.c")],
  ["handler call sequence", "return value"], "differential property testing against a reference parser, grammar-based and mutational fuzzing, ASan")

p("C26", "Hex rendering of binary data is exact and bounded for every length",
  "Rendering any bytes as hex text shows the digits of every byte that fits in order, never writes outside the output buffer of any capacity, always terminates it and reports the length produced. The hex logging calls accept any length without corrupting memory and log a correct rendering of the data's prefix.",
  ["inputs"], "every byte string and every output capacity",
  WEAK + "print a few bytes.",
  ["src/mem/strings.c", "src/log/xlog.c", "src/log/slog.c"], [("str_char2hex with capacity check", "src/mem/strings.c")],
  ["output buffer", "log output"], "differential property testing over all capacities, ASan")

p("C27", "Second-to-date conversion equals the UTC calendar plus the zone offset",
  "For every Unix second from 1970 on (beyond 2038 too) and every whole-hour time zone offset from -12 to +14, time_util_fast_second2date yields the same year, month, day, hour, minute and second as the proleptic Gregorian calendar. The reported offset of the local zone is that of the C library.",
  ["inputs"], "every second >= 0 that the fields can represent, every zone offset in range",
  WEAK + "convert the current time.",
  ["src/time/time_util.c"], [("integer calendar arithmetic", "src/time/time_util.c time_util_fast_second2date")],
  ["returned tm fields"], "differential property testing against gmtime_r and day-boundary enumeration")

p("C28", "Formatted times denote exactly the current instant, also with many threads",
  "Each current-time string is well formed, NUL-terminated, of the returned length and denotes exactly the instant of the clock at the call (to the millisecond, in the given zone), for any sequence of clock values including repeats, jumps backwards and minute, hour, day and year changes, and with several threads calling at once. RFC 1123 and RFC 2822 strings denote their instant exactly; a too small output is refused untouched.",
  ["inputs", "histories", "schedules"], "every sequence of clock values, every interleaving of calls",
  WEAK + "print the current time once.",
  ["src/time/time_util.c", "src/time/time_rfc1123.c", "src/time/time_rfc2822.c"], [("cached date per second", "src/time/time_util.c")],
  ["strings"], "differential property testing under a controlled clock")

p("C29", "xlog emits a message iff its level passes, complete and unaltered",
  "A log call produces output exactly when its level passes the configured minimum and a target is on; then every byte of the formatted message appears once, with the right level, tag and the fields (time, process, thread, tag, function, line) the format flags ask for, whatever the message length. Only tags beyond the documented length and very long function names may be shortened. Raw, auto-level and hex variants follow the same filter, and a message never contains bytes of another one, also when the console output is redirected to files and back.",
  ["inputs", "histories"], "every configuration of level, format and target; every message and length around the internal buffers",
  WEAK + "log short lines to the console and look at nothing.",
  ["src/log/xlog.c", "src/log/slog.c", "src/log/file_logger.c"], [("level check, stack buffer and heap fallback", "src/log/xlog.c")],
  ["bytes written to the targets"], "model-based property testing of captured output, ASan")

p("C30", "Log lines of concurrent threads are neither lost, torn nor mixed",
  "When several threads log at the same time to a file or to the console, every accepted line appears exactly once and in one piece, and the lines of one thread appear in the order that thread wrote them.",
  ["schedules"], "every interleaving of several logging threads",
  WEAK + "log from one thread.",
  ["src/log/xlog.c", "src/log/file_logger.c"], [("single write per line; queue handler with lock", "src/log/file_logger.c")],
  ["target file contents"], "concurrent property testing with generated thread scripts")

p("C31", "file_logger writes every accepted line once and in order, across rotation",
  "Every record accepted by a file_logger appears exactly once, whole and in order in the concatenation of its log files (in the order they were opened), across any number of rotations, which happen exactly once the size limit is reached, also several in the same millisecond or with a clock that jumps. Files keep to the configured size (one record more at most), lie in the configured folder under the configured prefix, and an existing file of the same name is never overwritten. With 'try my best to keep log' the records the full queue refused are found in the *_lost.log file instead of being dropped.",
  ["histories", "inputs"], "every sequence of record sizes and clock values, every size limit",
  WEAK + "log a few lines.",
  ["src/log/file_logger.c"], [("queue handler thread writing and rotating", "src/log/file_logger.c")],
  ["contents of the log folder"], "stateful property testing under a controlled clock and scheduler")

p("C32", "File helpers read, write, list and create exactly what is there",
  "file_util_read and file_util_write move exactly the bytes asked for (fewer only at end of file or on errors, also when the system transfers less at a time), read_all returns the whole contents NUL-terminated, read_txt hands out each non-blank line once, stripped and numbered, and stops with its handler's result; sizes and existence answers match the file system. mkdirs creates every missing component of a path that is followed by a slash and only those, and the append-slash helper leaves paths ending in one. The folder iterator visits every entry of one folder exactly once with the right type and stat, stops when told and leaks no handle, and no path length corrupts memory.",
  ["inputs", "histories"], "every tree of files, every path length, every content",
  WEAK + "touch one file.",
  ["src/file/file_util.c", "src/file/file_iterator.c"], [("stdio and dirent wrappers", "src/file/file_util.c")],
  ["file system state", "callback sequence"], "model-based property testing in a scratch tree, ASan")

p("C33", "Power-of-two helpers are exact for every 32-bit value",
  "For every unsigned 32-bit value above 1 the power-of-two test is right, rounding down yields the largest power of two not above it, and rounding up the smallest not below it (0 when none fits). 0 and 1 are not counted as powers of two: 0 rounds to 0, 1 up to 2 and down to 0.",
  ["inputs"], "all 2^32 values",
  WEAK + "never call them with boundary values.",
  ["src/data/integer.c", "inc/data/integer.h"], [("bit tricks", "src/data/integer.c")],
  ["return values"], "exhaustive enumeration (thorough) and boundary-biased sampling (quick) against the definition")

p("C34", "Running out of memory is reported, never a crash, leak or lost state",
  "If an allocation (or the creation of a thread) inside a library call fails, the call reports failure by its documented means, neither crashing nor hanging, the objects and files involved keep their previous contents and stay usable, and destroying them releases everything. The same call works once memory is available again.",
  ["fault_sequences", "histories"], "every allocation site reached by generated histories of each container and parser",
  WEAK + "never fail an allocation.",
  ["src/data/list.c", "src/data/hashmap.c", "src/data/array.c", "src/mem/stringbuilder.c", "src/mem/str_params.c", "src/file/ini_parser.c", "src/ring/ring_buf.c", "src/ring/ringbuffer.c", "src/ring/msg_queue.c", "src/ring/autocover_buffer.c", "src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c", "src/thread/thpool.c", "src/log/file_logger.c"],
  [("NULL checks after allocation", "throughout")],
  ["return codes", "live allocations", "AddressSanitizer"], "allocation-fault enumeration over generated histories, ASan, leak accounting", level="fault_enumeration")

p("C35", "Portable thread primitives keep their contracts",
  "A portable mutex excludes, a portable rwlock lets readers share and writers exclude everyone, and a portable semaphore never lets more holders through than its count and posts allow and loses no post. portable_thread create/join hand over the argument, the completion and the return value, and the attributes name the thread. NULL and destroyed handles are refused with an error instead of crashing, and all of this holds for any interleaving.",
  ["schedules", "histories"], "every interleaving of a few threads; every initial count and timeout",
  WEAK + "never contend.",
  ["src/thread/portable_thread_posix.c", "src/thread/posix_thread.c", "inc/thread/portable_thread.h"], [("wrappers over pthread and semaphores", "src/thread/portable_thread_posix.c")],
  ["return codes and observed exclusion"], "schedule-controlled property testing")

p("C36", "Library initialisation is reference counted and repeatable",
  "Any balanced nesting and repetition of library init and cleanup leaves the library (allocator, time and logging) working between them and releases everything after the last cleanup, after which it can be initialised again. An init that fails because memory ran out is reported, keeps nothing and can be retried.",
  ["histories"], "every sequence of init and cleanup calls with use in between",
  WEAK + "initialise once.",
  ["src/lcu.c", "src/mem/allocation_tracker.c"], [("init/cleanup pair", "src/lcu.c")],
  ["allocations left", "behaviour between"], "stateful property testing, leak accounting")


p("C37", "Logging macros reach the selected logger once; the off switches silence them",
  "In any program, each LOGx/TLOGx macro (plain, TRACE, HEX) of the facade, xlog.h and slog.h prints through the selected logger at its own level with the right tag (prefix + LOG_TAG + suffix, or the default), function and line, if and only if that logger's minimum level lets it pass, and evaluates its arguments at most once. The macros work as the body of an if/else; programs built with _LCU_LOGGER_DISABLE, LCU_XLOG_OFF or without redirection compile, and switched-off macros print and evaluate nothing.",
  ["inputs", "histories"], "every macro, configuration of tags and switches, level setting and message below the buffer size",
  WEAK + "log a few lines with one configuration.",
  ["inc/log/logger.h", "inc/log/logger_facade.h", "inc/log/logger_facade_xlog.h", "inc/log/logger_facade_slog.h", "inc/log/xlog.h", "inc/log/slog.h"], [("macro layers over __xlog_internal_print and printf", "inc/log/logger_facade.h")],
  ["console output", "argument evaluations", "reported levels"], "model-based stateful property testing over generated programs' macro uses")

p("C38", "The helper macros of common_macro.h hold for every operand",
  "For all operands, also expressions, integer/pointer conversions round-trip, __max/__min/__abs and ARRAY_LEN are exact, RANDOM(a, b) stays in [a, b) and repeats for a repeated seed, and generated enums number from 0 with matching strings. FREE and fclose release what a variable holds once and leave it NULL, and ASSERT_ABORT (ASSERT in debug builds) aborts if and only if its expression, evaluated once, is false.",
  ["inputs"], "every operand value, range and seed, in debug and release builds",
  "The repository's tests do not use most of these macros.",
  ["inc/common_macro.h"], [("function-like macros", "inc/common_macro.h")],
  ["values", "released resources", "exit status of a child"], "property testing against direct computation, metamorphic reseeding")

p("C39", "mem_debug.h works in every C and C++ file of a program, with all of the library",
  "In a program whose source files include mem_debug.h first and that is built with the memory check feature, every allocation by malloc, calloc, realloc, strdup, strndup, new or new[] in any C or C++ file is accounted with its size, file, function and line until it is freed, and freeing a double, foreign or overrun block stops the program. No legal program is stopped (all modules of the library can be used and leave nothing allocated, memory they return can be freed, macro arguments are evaluated once, new throws when memory runs out, a throwing constructor leaks nothing). Without the feature the same program behaves the same, untracked.",
  ["histories", "inputs"], "every history of allocations across source files in C and C++, every module used, feature on or off",
  "The repository's tests run with the feature on but compare no account, and its only C++ file allocates nothing.",
  ["inc/mem/mem_debug.h", "src/mem/str_params.c", "src/mem/strings.c", "src/mem/allocator.c"], [("macros and operators that route a program's allocations to the tracker", "inc/mem/mem_debug.h")],
  ["tracker's report per block", "process stopped or not", "contents"], "model-based stateful property testing of generated programs, with injected mistakes")

p("C40", "ini_reader's build options do what its header says and nothing else",
  "With every combination of the options documented in ini_reader.h (multi-line values, BOM, comment characters, inline comments, stopping at the first error, announcing new sections, names without value, line numbers, line buffer on the stack, on the heap or growing, custom memory functions, sizes) ini_reader compiles, parses by the grammar those options describe, identically from path, FILE, stream and string, and takes lines up to the configured maximum. When a heap buffer can't be had it returns -2 and keeps no memory; ini_parser on top of any such build stores what the reader reports.",
  ["inputs", "configurations"], "every documented combination of build options, every text",
  "The tests only ever run the default build.",
  ["inc/file/ini_reader.h", "src/file/ini_reader.c", "src/file/ini_parser.c"], [("options of the reader", "inc/file/ini_reader.h"), ("line buffer that grows", "src/file/ini_reader.c ini_reader_parse_stream")],
  ["handler calls and results of each build"], "model-based property testing over generated texts and build configurations, with allocation failures, ASan")

def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]],
                                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        src = glob.glob(os.path.join(V, "checks", q["id"] + "_*.cpp"))
        if src:
            checks.append({"property": q["id"], "quick_cmd": "python3 run.py %s --tier quick" % q["id"],
                           "thorough_cmd": "python3 run.py %s --tier thorough" % q["id"], "technique": q["tech"], "level": q["level"],
                           "level_note": q["note"] or "Generated cases only: absence of failures is evidence, not proof. Trusts the harness model, clang and AddressSanitizer."})
        else:
            na.append({"property": q["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "One engine (pbt/), one harness per property (checks/), run.py builds the library from /repo's working tree for every run."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
    write()
    print(len(P), "properties")
