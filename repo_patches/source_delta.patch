From 218143d60b26b25914350aa80bcef89a413bfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 01/71] fix: msg_queue_pop reports the size of the popped msg,
 as documented

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..ce61c6b 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the msg real size
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From 0a3f2087f80984051b973ff499aa227f355bdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 02/71] fix: msg_queue_destroy accepts a pointer to a NULL
 queue (destroying twice crashed)

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index ce61c6b..66362eb 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp) || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 4a865006e928cccde009b87123f4d01b0e3a9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 03/71] fix: thpool_wait called from several threads at once:
 wake every waiter, not just one

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..6d5f4bd 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -392,7 +392,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From 3f66ff726f5a889cdcc2f46715f10a15dbe995af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 04/71] fix: thpool_resume right after thpool_pause could leave
 threads on hold for ever

---
 src/thread/thpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 6d5f4bd..5a0da3c 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -257,7 +257,6 @@ void thpool_destroy(thpool_* thpool_p){
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
-	threads_on_hold = 1;
 	while (threads_on_hold) {
 		err("thread_hold(): thread(%ld) on sleep(1)...\n", (long)GETTID());
 		sleep(1);
@@ -268,6 +267,8 @@ static void thread_hold(int sig_id) {
 /* Pause all threads in threadpool */
 void thpool_pause(thpool_* thpool_p) {
 	int n;
+	/* set by the pausing thread: a signal handled after thpool_resume must not hold its thread again */
+	threads_on_hold = 1;
 	for (n=0; n < thpool_p->num_threads_alive; n++){
 		if (pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1)) {
 			err("send SIGUSR1 signal to thread failed.\n");
-- 
2.43.0


From 502797b2ea57c957989cfcbaf2888edae8261992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 05/71] fix: a paused thpool thread could hold a pool lock, so
 that adding work to the paused pool blocked

---
 src/thread/thpool.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 5a0da3c..85e3de3 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -197,8 +197,17 @@ int thpool_add_work(thpool_* thpool_p, void (*function_p)(void*), void* arg_p){
 	newjob->function=function_p;
 	newjob->arg=arg_p;
 
-	/* add job to queue */
+	/* add job to queue; a job may call this: its thread must not be put on hold in the middle */
+#ifndef _WIN32
+	sigset_t hold_set, old_set;
+	sigemptyset(&hold_set);
+	sigaddset(&hold_set, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &hold_set, &old_set);
+#endif // !_WIN32
 	jobqueue_push(&thpool_p->jobqueue, newjob);
+#ifndef _WIN32
+	pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+#endif // !_WIN32
 
 	return 0;
 }
@@ -360,6 +369,12 @@ static void* thread_do(struct thread* thread_p){
 	if (sigaction(SIGUSR1, &act, NULL) == -1) {
 		err("thread_do(): cannot handle SIGUSR1");
 	}
+	/* A thread must not be put on hold while it owns one of the pool's locks:
+	   only let SIGUSR1 through right before and during a job */
+	sigset_t hold_set;
+	sigemptyset(&hold_set);
+	sigaddset(&hold_set, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
 #endif // !_WIN32
 
 	/* Mark thread as alive (initialized) */
@@ -386,7 +401,13 @@ static void* thread_do(struct thread* thread_p){
 		if (job_p) {
 			func_buff = job_p->function;
 			arg_buff = job_p->arg;
+#ifndef _WIN32
+			pthread_sigmask(SIG_UNBLOCK, &hold_set, NULL);
+#endif // !_WIN32
 			func_buff(arg_buff);
+#ifndef _WIN32
+			pthread_sigmask(SIG_BLOCK, &hold_set, NULL);
+#endif // !_WIN32
 			free(job_p);
 		}
 
-- 
2.43.0


From 069b40a825ddc2976359c0f6a6214a95467b1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 06/71] fix: thpool_destroy freed the pool while its last
 thread was still releasing the pool's lock

---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 85e3de3..09d0832 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -250,6 +250,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread may still hold the lock it decremented the count under */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From e7c209e202e3af77e5d5d185eebb5530d8b0147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 07/71] fix: lcu_realloc lost the contents of the block while
 the allocation tracker was off

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..3219a85 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -146,6 +146,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		//tracker is off: nobody knows the size of ptr but the system allocator.
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 7e901a2bcd20d31f058d9f58699a3bea620490c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 08/71] fix: lcu_malloc/lcu_calloc/lcu_realloc returned a too
 small block when the size computation overflowed

---
 src/mem/allocator.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 3219a85..2b6aaf8 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -92,6 +92,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL; // no room for the canary
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -107,8 +111,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > (size_t)-1 / item_size)
+	{
+		return NULL; // request_size overflows
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL; // no room for the canary
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -140,6 +152,11 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size > (size_t)-1 - 2048U)
+	{
+		return NULL;
+	}
+
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-- 
2.43.0


From 4c89318cbdd4e6c319c458a0382bdac72e3eaa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 09/71] fix: hashmap_foreach only skipped the rest of one
 bucket when its callback asked to stop

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..feea3bc 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -381,7 +381,9 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
-				break;
+				// stop the whole iteration, not just this bucket.
+				hashmap_leave(map);
+				return;
 			}
 			entry = next;
 		}
-- 
2.43.0


From c4ea769ef18e962c0ff3c9c6a9b87c8628dbd056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 10/71] fix: lcu_base64_encode refused to encode a single byte

---
 src/data/base64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..40c06bd 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,13 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
+    if (src_buf_len < 1)
     {
         return -1;
     }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From d81e6f63295ff9cd4ffff686eba5e1ff7be7bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 11/71] fix: stringbuilder_appendnstr read beyond the end of a
 string shorter than len

---
 src/mem/stringbuilder.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..a452abf 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -115,6 +115,15 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		len = strlen(str);
 	}
+	else
+	{
+		// never read beyond the end of the string.
+		const char* end = (const char*)memchr(str, '\0', len);
+		if (end)
+		{
+			len = (size_t)(end - str);
+		}
+	}
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From ac5e22449be2cf3c9822c7e5326132aed30ae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 12/71] fix: str_char2hex wrote beyond its buffer when
 truncating and lost the last digit when the buffer had exactly the documented
 size

---
 src/mem/strings.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..a889aa9 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -201,17 +201,30 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (out_hex_str_capacity < 1U)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
-	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
+	if (chars_count > (out_hex_str_capacity - 1U) / ONE_HEX_STR_SIZE)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		int ret_header = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		if (ret_header < 0)
+		{
+			return 0U;
+		}
+		len_hex_str = (size_t)ret_header;
+		if (len_hex_str >= out_hex_str_capacity)
+		{
+			return out_hex_str_capacity - 1U; // even the header is truncated
+		}
+		chars_count = (out_hex_str_capacity - 1U - len_hex_str) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From 397fa2cc6b98fd4f962896e608f2ea3eb04af360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 13/71] fix: strreplace never returned when the pattern was
 empty

---
 src/mem/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index a889aa9..696fad9 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -113,6 +113,11 @@ char* strreplace(char const* const original,
 	const char* oriptr;
 	const char* patloc;
 
+	if (0 == patlen)
+	{
+		return strdup(original); // an empty pattern occurs nowhere
+	}
+
 	// find how many times the pattern occurs in the original string
 	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
-- 
2.43.0


From 715a57780b60e50b80e32de2820ad8964f422ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 14/71] fix: ini_parser_foreach went on with the next section
 after its handler asked to stop

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..39f6607 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,9 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	// a non-NULL node means the handler asked to stop.
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From aaf74b81404e6726e373e768ad3db59fbd7ed73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 15/71] fix: ini_parser_delete_section left the
 last-used-section cache pointing to the freed section

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 39f6607..6b8dd16 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (parser_p->p_last_used_section == p_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From 74221e091f246cdd0d851c35c6adf2c0cf198814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 16/71] fix: ini_parser_save leaked the file when there was
 nothing to save and reported success when writing failed

---
 src/file/ini_parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 6b8dd16..59add69 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -561,13 +561,18 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		{
 			free(ini_str);
 		}
+		fclose(fp);
 		return INI_PARSER_CODE_FAILED;
 	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	bool is_written = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp));
 	free(ini_str);
+	if (0 != fflush(fp))
+	{
+		is_written = false; // the buffered data could not be written
+	}
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	return is_written ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 96092893a7a31576483a470846eb07fc19392ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 17/71] fix: ini_reader cut off the longest section names and
 lines that ini_parser itself stores and dumps

---
 inc/file/ini_reader.h | 2 +-
 src/file/ini_reader.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/file/ini_reader.h b/inc/file/ini_reader.h
index 2c18e89..4e4f05f 100644
--- a/inc/file/ini_reader.h
+++ b/inc/file/ini_reader.h
@@ -127,7 +127,7 @@ INI_API int ini_reader_parse_string(const char* string, ini_reader_handler handl
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 400
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..652ad5a 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -35,8 +35,8 @@ void* ini_reader_realloc(void* ptr, size_t size);
 #endif
 #endif // !INI_USE_STACK
 
-#define MAX_SECTION 50
-#define MAX_NAME 50
+#define MAX_SECTION 64
+#define MAX_NAME 64
 
 /* Used by ini_reader_parse_string() to keep track of string parsing state. */
 typedef struct {
-- 
2.43.0


From 9525f603b47d18c26ddf97f4d8492c89c1cda46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 18/71] fix: str_params_create_str leaked the key of a repeated
 pair

---
 src/mem/str_params.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..72a5fac 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -128,8 +128,12 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
-		/* we replaced a value */
 		old_val = hashmap_put(parms->map, key, value);
+		if (old_val)
+		{
+			/* we replaced a value, the map keeps the key it already had */
+			free(key);
+		}
 		RELEASE_OWNERSHIP(value);
 		RELEASE_OWNERSHIP(old_val);
 		RELEASE_OWNERSHIP(key);
-- 
2.43.0


From 03238a57218572b425f31349475186b4cfd2e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 19/71] fix: str_params_add_double cut off large values

---
 src/mem/str_params.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 72a5fac..6c9c90d 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -229,10 +229,10 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[352]; // enough for DBL_MAX
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
-	if (ret < 0)
+	if (ret < 0 || (size_t)ret >= sizeof(val_str))
 	{
 		return -EINVAL;
 	}
-- 
2.43.0


From c5a4d7d5639c93cd3f1723d1be8cf6b783a9c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 20/71] fix: ini_parser_put_string crashed on a NULL section

---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 59add69..ddd889c 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -307,7 +307,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-- 
2.43.0


From b748ddf2f235405c0ee37968b475643cf0253363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 21/71] fix: ini_reader dropped names without a value once an
 error had occurred

---
 src/file/ini_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 652ad5a..8d4a2fd 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -220,7 +220,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, value) && !error)
                     error = lineno;
             }
-            else if (!error) {
+            else {
                 /* No '=' or ':' found on name[=:]value line */
 #if INI_ALLOW_NO_VALUE
                 *end = '\0';
@@ -228,7 +228,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, NULL) && !error)
                     error = lineno;
 #else
-                error = lineno;
+                if (!error)
+                    error = lineno;
 #endif
             }
         }
-- 
2.43.0


From e66ec2e92170551508789b44eb67bd0c0b5266eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 22/71] fix: integer_rounddown_pow_of_two returned 0 for values
 above 2^31

---
 src/data/integer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..2e3e24f 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -37,5 +37,6 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return roundup_integer;
 	}
-	return (roundup_integer >> 1);
+	// above 2^31 the round up result does not fit in 32 bits (it is 0)
+	return roundup_integer ? (roundup_integer >> 1) : (1U << 31);
 }
-- 
2.43.0


From e4077776cd12cad42c406634b66d73aa3ca472de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 23/71] fix: time_util_fast_second2date overflowed for times
 after 2038-01-19

---
 src/time/time_util.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..a714e9c 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -193,11 +193,11 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
 	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
-	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = minutes / kMinutesInHour + timezone_hour;
-	lt->tm_hour = hours % kHoursInDay; // hh
-	lt->tm_mday = hours / kHoursInDay;
+	int64_t minutes = (int64_t)(*p_unix_sec) / kMinutesInHour;
+	lt->tm_min = (int)(minutes % kMinutesInHour); //nn
+	int64_t hours = minutes / kMinutesInHour + timezone_hour;
+	lt->tm_hour = (int)(hours % kHoursInDay); // hh
+	lt->tm_mday = (int)(hours / kHoursInDay);
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-- 
2.43.0


From 48d1af72c8fcdcf5896b409eba1ec5507dc2ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 24/71] fix: time_util_fast_second2date gave negative hours for
 local times before 1970

---
 src/time/time_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index a714e9c..e0cc833 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -198,6 +198,11 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	int64_t hours = minutes / kMinutesInHour + timezone_hour;
 	lt->tm_hour = (int)(hours % kHoursInDay); // hh
 	lt->tm_mday = (int)(hours / kHoursInDay);
+	if (lt->tm_hour < 0) // local time is before 1970
+	{
+		lt->tm_hour += kHoursInDay;
+		lt->tm_mday -= 1;
+	}
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-- 
2.43.0


From 706ba31816adb69999ffa01726cef4e60629ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 25/71] fix: the first current time string was empty when the
 clock stood at the epoch

---
 src/time/time_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index e0cc833..2bb43ba 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -253,7 +253,7 @@ static inline int get_time_str(char str[TIME_STR_SIZE], struct timeval* tval_p,
 	{
 		time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
 		TIME_UTIL_RD_LOCK(&cache_p->rw_lock); // lock rdlock
-		if (cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
+		if (cache_p->format_cache[0] != '\0' && cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
 		{	// hit cache, just copy whole cached time string
 			ftime_len = (int)strlcpy(str, cache_p->format_cache, TIME_STR_SIZE);
 			bool update_millis = cache_p->tval.tv_usec != tval_p->tv_usec;
-- 
2.43.0


From 768bf9820d387179f54bbe1a24e6666ab9a58826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 26/71] fix: xlog overflowed its stack buffer with a very long
 function name

---
 src/log/xlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..b87bcd5 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -395,12 +395,17 @@ static inline int my_int2str(int num, char* str)
 }
 
 // (func:line)  
-static inline int print_func_line(char* buffer, const char* func, int line_num)
+static inline int print_func_line(char* buffer, size_t buffer_size, const char* func, int line_num)
 {
 	char *str = buffer;
 	str[0] = '(';
 	++str;
 	size_t len_func = strlen(func);
+	const size_t max_len_func = buffer_size - 16U; // keep space for "(:", line number, ") " and NUL terminator
+	if (len_func > max_len_func)
+	{
+		len_func = max_len_func;
+	}
 	memcpy(str, func, len_func);
 	str += len_func;
 	str[0] = ':';
@@ -484,7 +489,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
 #else
-			buffer_strlen += print_func_line(buffer_log + buffer_strlen, func_name, file_line);
+			buffer_strlen += print_func_line(buffer_log + buffer_strlen, default_buffer_remaining_size, func_name, file_line);
 #endif // USE_SNPRINTF_HEADER
 	    }
 
-- 
2.43.0


From 891b11069688fe2ab2753f003137d02b74914210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 27/71] fix: file_logger dropped a lost record while the log
 folder did not exist yet

---
 src/log/file_logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..8c60bd9 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -165,6 +165,7 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 		snprintf(path_buffer, sizeof(path_buffer) - 1, "%s%s_lost.log",
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix);
 		MY_LOGE(" warning: lost log, you can see it on *_lost.log");
+		file_util_mkdirs(handle->cfg.log_folder_path); // maybe nothing was written yet
 		FILE* f_lost = fopen(path_buffer, "a");
 		if (f_lost)
 		{
-- 
2.43.0


From bbc112d7529deaa3eb4ed839d0710d3d81f2bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 28/71] fix: file_logger overwrote a log file when it rotated
 twice in the same millisecond

---
 src/log/file_logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 8c60bd9..d1e81f7 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -221,7 +221,7 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
-		handle->cur_fp = fopen(path_buffer, "wb");
+		handle->cur_fp = fopen(path_buffer, "ab"); // a file with this time stamp may exist already, do not lose it
 		handle->cur_log_file_size_counter = 0U;
 	}
 	if (!handle->cur_fp)
-- 
2.43.0


From 5538df28538105dcd6b9baae52141b7f6a1821fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 29/71] fix: file_util_mkdirs used an unterminated buffer for a
 path of 256 characters

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..3cdd16c 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -75,7 +75,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	{
 		return -2; // dir too long
 	}
-	char tmp_dir_path[MAX_FOLDER_PATH_LEN] = { 0 };
+	char tmp_dir_path[MAX_FOLDER_PATH_LEN + 1] = { 0 };
 	for (size_t i = 0; i < dir_path_len; ++i)
 	{
 		tmp_dir_path[i] = folder_path[i];
-- 
2.43.0


From 024716573cad1dd3869da1fd9a4058065d53ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 30/71] fix: file_util_append_slash_on_path_if_needed appended
 a second slash to paths that mix both kinds

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 3cdd16c..1740892 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -44,7 +44,7 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 		return -2;
 	}
 	const char slash_char = (NULL != strstr(folder_path, "\\")) ? '\\' : '/';
-	if (folder_path[path_len - 1] == slash_char)
+	if ('/' == folder_path[path_len - 1] || '\\' == folder_path[path_len - 1])
 	{
 		return 0;
 	}
-- 
2.43.0


From 6117ca98a891eaa1a198320a66b9edb01ec48d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 31/71] fix: file_iterator_foreach silently left out the rest
 of the folder after an entry without stat

---
 src/file/file_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..d54c665 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -71,7 +71,7 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1) continue; // e.g. dangling symbolic link
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
-- 
2.43.0


From edcfc259d08d2bc8e18a4309f71c77227017d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 32/71] fix: portable_mutex_unlock crashed on a mutex that is
 not initialised

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From aa02ca08bb655e88a70cc26f7a6ad91345005830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 33/71] fix: lcu_global_init, xlog_global_init and
 time_util_global_init reported success without their locks when memory ran
 out

---
 src/lcu.c            | 5 +++++
 src/log/xlog.c       | 3 +--
 src/time/time_util.c | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lcu.c b/src/lcu.c
index bfe1685..aacab7b 100644
--- a/src/lcu.c
+++ b/src/lcu.c
@@ -19,6 +19,11 @@ int lcu_global_init()
 	// do not use any lcu function before init! such as XLOG, get TIME 
 	int ret = time_util_global_init();
 	ret |= xlog_global_init();
+	if (ret < 0)
+	{
+		// nothing stays initialized, so that it can be tried again
+		lcu_global_cleanup();
+	}
 	return ret;
 }
 
diff --git a/src/log/xlog.c b/src/log/xlog.c
index b87bcd5..9c86e0d 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -121,8 +121,7 @@ int xlog_global_init()
 	{
 		return 1;
 	}
-	portable_mutex_init(&g_xlog_mutex, NULL);
-	return 0;
+	return portable_mutex_init(&g_xlog_mutex, NULL) ? -1 : 0;
 }
 
 int xlog_global_cleanup()
diff --git a/src/time/time_util.c b/src/time/time_util.c
index 2bb43ba..332c57b 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -133,6 +133,7 @@ int gettimeofday(struct timeval* tp, struct timezone* tzp)
 
 int time_util_global_init()
 {
+	int ret = 0;
 #if(defined(USE_TIME_CACHE) && USE_TIME_CACHE)
 	for (int i = 0; i < ARRAY_LEN(g_time_caches); ++i)
 	{
@@ -140,10 +141,13 @@ int time_util_global_init()
 		{
 			continue;
 		}
-		portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
+		if (portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL))
+		{
+			ret = -1;
+		}
 	}
 #endif // USE_TIME_CACHE  
-	return 0;
+	return ret;
 }
 
 int time_util_global_cleanup()
-- 
2.43.0


From ec6de57c00dbef54e2f7d448138031b0a1b56275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 34/71] fix: str_params_create_str crashed or left out pairs
 when memory ran out

---
 src/mem/str_params.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 6c9c90d..af39c2e 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -88,6 +88,8 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	char* str = NULL;
 	char* kvpair = NULL;
 	char* tmpstr = NULL;
+	char* value;
+	char* key;
 	int items = 0;
 	parms = str_params_create(delimiter);
 	if (!parms)
@@ -104,8 +106,6 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	while (kvpair && *kvpair)
 	{
 		char* eq = strchr(kvpair, '='); /* would love strchrnul */
-		char* value;
-		char* key;
 		void* old_val;
 		if (eq == kvpair)
 		{
@@ -128,7 +128,16 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
+		if (!key || !value)
+		{
+			goto label_err_pair;
+		}
+		errno = 0;
 		old_val = hashmap_put(parms->map, key, value);
+		if (!old_val && errno == ENOMEM)
+		{
+			goto label_err_pair; // the map did not take the pair
+		}
 		if (old_val)
 		{
 			/* we replaced a value, the map keeps the key it already had */
@@ -148,6 +157,10 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	}
 	free(str);
 	return parms;
+label_err_pair:
+	free(key);
+	free(value);
+	free(str);
 label_err_strdup:
 	str_params_destroy(parms);
 label_err_create_str_parms:
-- 
2.43.0


From 6dc321548ff218510348fc1bdb3e9e299a1fb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 35/71] fix: str_params_to_str returned an empty string when
 memory ran out

---
 src/mem/str_params.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index af39c2e..b2c4c0f 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -338,6 +338,7 @@ int str_params_get_float(str_params_ptr params, const char* key, float* out_val)
 typedef struct  
 {
 	char* str;
+	bool is_failed;
 	str_params_ptr params_ptr;
 }combine_strings_ctx;
 
@@ -365,6 +366,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		new_str = NULL;
 	}
 	combine_ctx->str = NULL;
+	combine_ctx->is_failed = true;
 	return false;
 }
 
@@ -373,9 +375,14 @@ char* str_params_to_str(str_params_ptr params)
 	combine_strings_ctx ctx =
 	{
 	   .str = NULL,
+	   .is_failed = false,
 	   .params_ptr = params,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.is_failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From 73dd545e0179fbbed5eec62db0673af213855b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 36/71] fix: ini_parser leaked the list of a new section when
 memory ran out

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index ddd889c..d563420 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -279,6 +279,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From c762ecfd2cc7da99053c60b5a9e61803ebc01e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 37/71] fix: ini_parser_dump silently left out section headings
 when memory ran out

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index d563420..6866f78 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -463,10 +463,17 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != (dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name)))
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 != dump_ctx->ret_code)
+	{
+		return false;
+	}
+	dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From 8e692fc0e4c560410b586ce6ca79298fb845c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 38/71] fix: ini_parser_save emptied the existing file when
 memory ran out

---
 src/file/ini_parser.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 6866f78..63b1fe0 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -557,18 +557,20 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
+	char* ini_str = ini_parser_dump(parser_p);
+	if (!ini_str)
+	{
+		return INI_PARSER_CODE_FAILED; // keep the contents of an existing file
+	}
 	FILE* fp = fopen(file_path, "wb");
 	if (!fp)
 	{
+		free(ini_str);
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-	char* ini_str = ini_parser_dump(parser_p);
-	if (!ini_str || '\0' == ini_str[0])
+	if ('\0' == ini_str[0])
 	{
-		if (ini_str)
-		{
-			free(ini_str);
-		}
+		free(ini_str);
 		fclose(fp);
 		return INI_PARSER_CODE_FAILED;
 	}
-- 
2.43.0


From 0dfaa82c64361db9b74d164b8c0953cd0f6d51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 39/71] fix: thpool_init never returned when a thread could not
 be created

---
 src/thread/thpool.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 09d0832..58c7276 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -163,8 +163,14 @@ struct thpool_* thpool_init(int num_threads){
 
 	/* Thread init */
 	int n;
+	int is_failed = 0;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0){
+			/* go on with the threads created so far, only to end them */
+			num_threads = n;
+			is_failed   = 1;
+			break;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
@@ -175,6 +181,11 @@ struct thpool_* thpool_init(int num_threads){
 		usleep(1000);
 	}
 
+	if (is_failed){
+		thpool_destroy(thpool_p);
+		return NULL;
+	}
+
 	return thpool_p;
 }
 
@@ -329,7 +340,11 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0){
+		err("thread_init(): Could not create thread\n");
+		free(*thread_p);
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0


From 9ed41bde1c1dedf0583c30c374fb2b23a704aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 40/71] fix: file_logger_init crashed when memory ran out

---
 src/log/file_logger.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index d1e81f7..435adca 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -94,6 +94,11 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (NULL == log_folder_path_formatted)
+	{
+		file_logger_deinit(&handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From 5e5b8370bad054caaf4c091507c745524e9ad55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 41/71] fix: hashmap_put set ENOMEM for an entry it had taken,
 and str_params freed it, when the map could not grow

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index feea3bc..04cebff 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. The entry is in the map, so ENOMEM must not be seen by the caller of put.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From e386a9c18fd504c647e29e493c16d514389696f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 42/71] fix: handlers were created without their semaphore when
 memory ran out, and their thread never slept

---
 src/ring/fixed_msg_queue_handler.c | 7 ++++++-
 src/ring/msg_queue_handler.c       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..f1e3ad5 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,7 +94,12 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	if (0 != portable_sem_init(&(handler->semaphore), 0, 0))
+	{
+		LOGE("error on init semaphore!");
+		free(handler);
+		return NULL;
+	}
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
 	if (!handler->msg_queue_p || 
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..444d454 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,7 +128,12 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	if (0 != portable_sem_init(&(handler->semaphore), 0, 0))
+	{
+		LOGE("error on init semaphore!");
+		free(handler);
+		return NULL;
+	}
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
 	if (!handler->msg_queue_p ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
-- 
2.43.0


From 2c1dd0dc11825af4e3ac4f0476ee0900272a329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 43/71] fix: stringbuilder_appendf corrupted the text when the
 arguments can't be formatted

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a452abf..b9e361e 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -149,12 +149,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	const int formatted_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (formatted_len < 1) // negative: can't be formatted
 	{
 		return -2;
 	}
+	const size_t len = (size_t)formatted_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From ab7d7f175e09bb4bf2fe307a9db664524ddeb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 44/71] fix: fixed_msg_queue_create made a far too small queue
 when its size computation overflowed

---
 src/ring/fixed_msg_queue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ring/fixed_msg_queue.c b/src/ring/fixed_msg_queue.c
index ff41210..a2fbae8 100644
--- a/src/ring/fixed_msg_queue.c
+++ b/src/ring/fixed_msg_queue.c
@@ -16,7 +16,11 @@ fixed_msg_queue fixed_msg_queue_create(__in uint32_t one_msg_byte_size,
     {
         return NULL;
     }
-    const size_t expect_mem_size = sizeof(struct _fixed_msg_queue_s) + one_msg_byte_size * max_msg_capacity;
+    if (one_msg_byte_size > UINT32_MAX / max_msg_capacity)
+    {
+        return NULL; // more than the ring can address
+    }
+    const size_t expect_mem_size = sizeof(struct _fixed_msg_queue_s) + (size_t)one_msg_byte_size * max_msg_capacity;
     char *raw_mem = (char *)malloc(expect_mem_size);
     if (!raw_mem)
     {
-- 
2.43.0


From ab129a71e976b1fb7a8b846ab4fb245e43525fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 45/71] fix: array_new_with_init_capacity made a too small
 array when its size computation overflowed

---
 src/data/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/array.c b/src/data/array.c
index 7d3246b..afb4d20 100644
--- a/src/data/array.c
+++ b/src/data/array.c
@@ -49,6 +49,10 @@ array_t* array_new_with_init_capacity(size_t element_size, size_t init_capacity)
 	{
         init_capacity = 4;
 	}
+	if (element_size > (SIZE_MAX - sizeof(array_t)) / init_capacity)
+	{
+        return NULL; // more than can be addressed
+	}
 	array_t* array = (array_t*)calloc(1, sizeof(array_t) + element_size * init_capacity);
     if (array == NULL)
     {
-- 
2.43.0


From 80f09cc76c0bb0d9bf9fdfba1c5586437d52a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 46/71] fix: ini_parser finds section and key names longer than
 it stores

Names are stored truncated to SECTION_NAME_MAX_SIZE - 1 characters but were
compared in full, so a longer name could be put but never found again: get,
has and delete answered NOT_FOUND, and every further put added a duplicate.
---
 src/file/ini_parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 63b1fe0..8de15d9 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -10,6 +10,8 @@
 
 #define INI_VALUE_STACK_SIZE (256)
 #define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE / 4)
+/* names are stored truncated to SECTION_NAME_MAX_SIZE - 1 chars, so compare no more than that */
+#define INI_NAME_COMPARE(a, b) strncasecmp((a), (b), SECTION_NAME_MAX_SIZE - 1)
 
 typedef enum
 {
@@ -247,7 +249,7 @@ static bool iter_for_search_target_section(void* data, void* context)
 {
 	char* section_name = (char*)context;
 	section_info_t* p_section_info = (section_info_t*)data;
-	return 0 != strcasecmp(section_name, p_section_info->section_name);
+	return 0 != INI_NAME_COMPARE(section_name, p_section_info->section_name);
 }
 
 static section_info_t* search_target_section(ini_parser_handle parser_p, bool auto_create,
@@ -255,7 +257,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 {
 	if (!section || section_len == 0) return NULL;
 	if (parser_p->p_last_used_section &&
-		0 == strcasecmp(section, parser_p->p_last_used_section->section_name))
+		0 == INI_NAME_COMPARE(section, parser_p->p_last_used_section->section_name))
 	{
 		return parser_p->p_last_used_section; //hit cache, no need search on root list.
 	}
@@ -295,7 +297,7 @@ static bool iter_for_search_key_value(void* data, void* context)
 {
 	key_value_t* p_kv = (key_value_t*)data;
 	char* key = (char*)context;
-	return 0 != strcasecmp(key, p_kv->key);
+	return 0 != INI_NAME_COMPARE(key, p_kv->key);
 }
 
 static key_value_t* iter_section_for_search_target_kv(list_t* section, const char* key)
-- 
2.43.0


From 7418b21a48bc31059513c7546e4072e18be4904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 47/71] fix: _LCU_LOGGER_DISABLE=1 disables the logger facade

The condition was inverted: defining the switch as 1 left all logging on and
defining it as 0 removed it.  LOG_GET_MIN_LEVEL() of the disabled facade was a
statement and could not be used as the value it stands for.
---
 inc/log/logger_facade.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/log/logger_facade.h b/inc/log/logger_facade.h
index a6a612a..da12ebe 100644
--- a/inc/log/logger_facade.h
+++ b/inc/log/logger_facade.h
@@ -48,7 +48,7 @@
 #undef LOGE_HEX
 //================CLEANUP PREVIOUS DEFINITION================
 
-#if(!defined(_LCU_LOGGER_DISABLE) || 0 != _LCU_LOGGER_DISABLE)
+#if(!defined(_LCU_LOGGER_DISABLE) || 0 == _LCU_LOGGER_DISABLE)
 
 #ifndef _LOG_TAG
 #error "You should define \"_LOG_TAG\" before include <logger_facade_xx.h>"
@@ -120,7 +120,7 @@
 #define LOG_GLOBAL_INIT(params)      _LOG_NOTHING()
 #define LOG_GLOBAL_CLEANUP(params)   _LOG_NOTHING()
 #define LOG_SET_MIN_LEVEL(min_level) _LOG_NOTHING()
-#define LOG_GET_MIN_LEVEL()          _LOG_NOTHING()
+#define LOG_GET_MIN_LEVEL()          (LOG_LEVEL_OFF)
 #define LOG_STD2FILE(file_path)      _LOG_NOTHING()
 #define LOG_BACK2STD()               _LOG_NOTHING()
 
-- 
2.43.0


From a5ef374c60258bef3db01cfc692ebd1f3b092fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 48/71] fix: xlog.h compiles with LCU_XLOG_OFF and without
 stdout redirection

LOG_BACK2STD() of LCU_XLOG_OFF named a macro without calling it, and the
switch for systems without redirection was spelled differently in two places,
so that LOG_STD2FILE used functions that were not declared.
---
 inc/log/slog.h | 4 ++--
 inc/log/xlog.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/log/slog.h b/inc/log/slog.h
index e5719fc..896a88e 100644
--- a/inc/log/slog.h
+++ b/inc/log/slog.h
@@ -15,11 +15,11 @@ extern "C" {
 
 	LogLevel slog_get_min_level();
 
-#if(!defined(_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT)
+#if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 	void slog_stdout2file(char* file_path);
 
 	void slog_back2stdout();
-#endif // !_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT
+#endif // !_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
 
 	void __slog_internal_hex_print(int level, const char* tag, const char* chars, size_t chars_count);
 	
diff --git a/inc/log/xlog.h b/inc/log/xlog.h
index 97e1e58..e8f0e0b 100644
--- a/inc/log/xlog.h
+++ b/inc/log/xlog.h
@@ -179,7 +179,7 @@ extern "C" {
 #endif // !_LOG_NOTHING
 
 #define LOG_STD2FILE(file_path)  do { (void)(file_path); } while (0)
-#define LOG_BACK2STD()           _LOG_NOTHING
+#define LOG_BACK2STD()           _LOG_NOTHING()
 
 #define TLOGV(tag, fmt, ...) _LOG_NOTHING()
 #define TLOGD(tag, fmt, ...) _LOG_NOTHING()
@@ -219,13 +219,13 @@ extern "C" {
 
 #else
 
-#if(!defined(_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT)
+#if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 #define LOG_STD2FILE(file_path)       do { xlog_stdout2file(file_path); } while(0)
 #define LOG_BACK2STD()                do { xlog_back2stdout(); } while(0)   
 #else
 #define LOG_STD2FILE(file_path)       do { (void)(file_path); } while (0)
 #define LOG_BACK2STD()                do {} while (0)
-#endif // !_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT
+#endif // !_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
 
 // better 'define LOG_TAG "xxx"' before include "xlog.h"
 // if not, we use default TAG, which you called on xlog_set_default_tag
-- 
2.43.0


From 334e6af01f703d8c084e525c75c5d4bb1ee5ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 49/71] fix: PTR_TO_UINT and PTR_TO_INT have balanced
 parentheses

Neither macro could be used.
---
 inc/common_macro.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/common_macro.h b/inc/common_macro.h
index 898182f..9c0dbb3 100644
--- a/inc/common_macro.h
+++ b/inc/common_macro.h
@@ -247,9 +247,9 @@ typedef intptr_t ssize_t;
  // (never in C++ code). 
  // Whenever integers need to be passed as a pointer, use these macros. 
  // for compatible with 64bit OS, suggest use PTR_TO_LONG64 and LONG64_TO_PTR
-#define PTR_TO_UINT(p)    ((uintptr_t) (p)))
+#define PTR_TO_UINT(p)    ((uintptr_t) (p))
 #define UINT_TO_PTR(u)    ((void *) ((uintptr_t) (u)))
-#define PTR_TO_INT(p)     (((intptr_t) (p))
+#define PTR_TO_INT(p)     ((intptr_t) (p))
 #define INT_TO_PTR(i)     ((void *) ((intptr_t) (i)))
 #define PTR_TO_LONG64(p)  ((long long) ((intptr_t) (p)))
 #define LONG64_TO_PTR(i)  ((void *) ((intptr_t) (i)))
-- 
2.43.0


From 5a9588bbef483187d4bddd4259ecb9bb988fc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 50/71] fix: autocover buffer: a reader at the write position
 has no data yet, nothing is covered

---
 src/ring/autocover_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..7a35538 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -69,8 +69,9 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	if (ring_write_off - ring_read_off == ring_available_data)
 	{
 		//current ring read from "out --> in"
-		//so "cover_read_off" should big(or equal) than "ring_read_off", small than "ring_write_off"
-		if (cover_read_off >= ring_read_off && cover_read_off < ring_write_off)
+		//so "cover_read_off" should big(or equal) than "ring_read_off", small(or equal) than "ring_write_off".
+		//if it equal to "ring_write_off", all data has been read and nothing is covered: no data available yet.
+		if (cover_read_off >= ring_read_off && cover_read_off <= ring_write_off)
 		{
 			real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
 		}
-- 
2.43.0


From 250f222a081dc6e712149c0a7a693e5b198376ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:21 +0000
Subject: [PATCH 51/71] fix: thpool: pausing is a matter of one pool, not of
 every pool of the process

---
 src/thread/thpool.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 58c7276..fddb151 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -38,7 +38,6 @@
 #endif
 
 //static volatile int threads_keepalive;
-static volatile int threads_on_hold;
 
 
 
@@ -83,6 +82,7 @@ typedef struct thread{
 typedef struct thpool_{
 	thread**   threads;                  /* pointer to threads        */
 	volatile int threads_keepalive;      /* flag of threadpool exit   */
+	volatile int threads_on_hold;        /* flag of threadpool paused */
 	volatile int num_threads_alive;      /* threads currently alive   */
 	volatile int num_threads_working;    /* threads currently working */
 	pthread_mutex_t  thcount_lock;       /* used for thread count etc */
@@ -124,9 +124,6 @@ static void  bsem_wait(struct bsem *bsem_p);
 /* Initialize thread pool */
 struct thpool_* thpool_init(int num_threads){
 
-	threads_on_hold   = 0;
-	//threads_keepalive = 1;
-
 	if (num_threads < 0){
 		num_threads = 0;
 	}
@@ -139,6 +136,7 @@ struct thpool_* thpool_init(int num_threads){
 		return NULL;
 	}
 	thpool_p->threads_keepalive   = 1;
+	thpool_p->threads_on_hold     = 0;
 	thpool_p->num_threads_alive   = 0;
 	thpool_p->num_threads_working = 0;
 
@@ -278,10 +276,13 @@ void thpool_destroy(thpool_* thpool_p){
 
 #ifndef _WIN32
 
+/* The pool the calling thread works for: the signal handler only holds the threads of a paused pool */
+static __thread thpool_* volatile thread_own_pool = NULL;
+
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
-	while (threads_on_hold) {
+	while (thread_own_pool && thread_own_pool->threads_on_hold) {
 		err("thread_hold(): thread(%ld) on sleep(1)...\n", (long)GETTID());
 		sleep(1);
 	}
@@ -292,7 +293,7 @@ static void thread_hold(int sig_id) {
 void thpool_pause(thpool_* thpool_p) {
 	int n;
 	/* set by the pausing thread: a signal handled after thpool_resume must not hold its thread again */
-	threads_on_hold = 1;
+	thpool_p->threads_on_hold = 1;
 	for (n=0; n < thpool_p->num_threads_alive; n++){
 		if (pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1)) {
 			err("send SIGUSR1 signal to thread failed.\n");
@@ -302,12 +303,7 @@ void thpool_pause(thpool_* thpool_p) {
 
 /* Resume all threads in threadpool */
 void thpool_resume(thpool_* thpool_p) {
-    // resuming a single threadpool hasn't been
-    // implemented yet, meanwhile this suppresses
-    // the warnings
-    (void)thpool_p;
-
-	threads_on_hold = 0;
+	thpool_p->threads_on_hold = 0;
 }
 
 #endif // !_WIN32
@@ -381,6 +377,7 @@ static void* thread_do(struct thread* thread_p){
 
 	/* Register signal handler */
 #ifndef _WIN32
+	thread_own_pool = thpool_p;
 	struct sigaction act;
 	sigemptyset(&act.sa_mask);
 	act.sa_flags = 0;
-- 
2.43.0


From 2eb18c2d900d12047ff168559b8b349819578bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 52/71] fix: lcu_strndup doesn't read beyond the given length

---
 src/mem/allocator.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 2b6aaf8..00d07dc 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,11 +62,9 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	// str doesn't have to be terminated within its first len characters
+	const char* end = (const char*)memchr(str, '\0', len);
+	size_t size = end ? (size_t)(end - str) : len;
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From 056c3156df312c63b7c0a03ce5a713147117be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 53/71] fix: the zone offset was wrong by the daylight saving
 time for hours around each change of it

---
 src/time/time_util.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 332c57b..e882da3 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -170,18 +170,27 @@ int time_util_global_cleanup()
 int time_util_zone_offset_seconds_to_utc()
 {
 	time_t rawtime = time(NULL);
-	struct tm buf;
+	struct tm utc;
+	struct tm local;
 
 #if defined(_MSC_VER)
-	gmtime_s(&buf, &rawtime);
+	gmtime_s(&utc, &rawtime);
+	localtime_s(&local, &rawtime);
 #else
-	gmtime_r(&rawtime, &buf);
+	tzset();
+	gmtime_r(&rawtime, &utc);
+	localtime_r(&rawtime, &local);
 #endif
-	// Request that mktime() looksup dst in timezone database
-	buf.tm_isdst = -1;
-	time_t gmt = mktime(&buf);
+	// compare both dates of this very instant: reading the utc date as a local one
+	// would go wrong for some hours around each change of daylight saving time.
+	int days = local.tm_yday - utc.tm_yday;
+	if (local.tm_year != utc.tm_year)
+	{
+		days = local.tm_year > utc.tm_year ? 1 : -1;
+	}
 
-	return (int)difftime(rawtime, gmt);//seconds
+	return ((days * 24 + local.tm_hour - utc.tm_hour) * 60
+		+ local.tm_min - utc.tm_min) * 60 + local.tm_sec - utc.tm_sec;//seconds
 }
 
 /**
-- 
2.43.0


From d689368e3f5acfe85b87c7e0bbb8399da036bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:06 +0000
Subject: [PATCH 54/71] fix: file_logger_log corrupted memory with messages
 over 2 GiB

---
 src/log/file_logger.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 435adca..110892a 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -7,6 +7,7 @@
 #include "file/file_util.h"        /* for mkdir */
 #include "thread/posix_thread.h"   /* for usleep */ 
 #include "time/time_util.h"        /* for timestamp file name */
+#include <limits.h>                /* for INT_MAX */
 
 #define TRACE_FILE_LOGGER          1
 #if(TRACE_FILE_LOGGER)
@@ -130,6 +131,12 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 	msg_q_code_e status = MSG_Q_CODE_BUF_NOT_ENOUGH;
 	int retry_counter = 0;
 	
+	if (msg_size > (size_t)INT_MAX)
+	{
+		MY_LOGE("err message of %zu bytes is too large at %s:%d", msg_size, __func__, __LINE__);
+		return (int)status;// the length of a queue message is an int
+	}
+
 	FILE_LOGGER_LOCK(handle);
 	do
 	{
-- 
2.43.0


From 4603c8911c294de3eb604589d6f802b80af2718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 55/71] fix: a RingBuffer over memory of more than 2 GiB had no
 capacity

---
 src/ring/ringbuffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..378eba3 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -75,7 +75,10 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		while (!pri_is_power_of_2(ring_buf_size))
+		{
+			ring_buf_size &= (ring_buf_size - 1U); // drop the lowest bit, the highest one stays
+		}
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
-- 
2.43.0


From 6fe3b7c2ce1e550a8e11305da029a4e06722b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 56/71] fix: auto_cover_buf_read aborted when more than INT_MAX
 bytes were requested

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index 7a35538..c1f651d 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -101,7 +101,7 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	}
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
-	if (target && real_can_read_len >= (int)request_read_len)
+	if (target && real_can_read_len >= 0 && (uint32_t)real_can_read_len >= request_read_len)
 	{
 		//perform discard
 		const uint32_t should_discard_len = ring_available_data - real_can_read_len;
@@ -136,7 +136,7 @@ int auto_cover_buf_read(__in const auto_cover_buf_handle buf_handle,
 		return available_read_data;
 	}
 	int real_read_len;
-	if (available_read_data < (int)req_read_len)
+	if ((uint32_t)available_read_data < req_read_len)
 	{
 		//error: not enough data, we NOT perform read operation.
 		real_read_len = AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH;
-- 
2.43.0


From fc1f37f571a81db68d8c89624b515bd29ff3f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 57/71] fix: ini_parser_get_bool took multiples of 2^32 for
 false

---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 8de15d9..0a1ca80 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -711,7 +711,7 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 				result = false;
 				break;
 			}
-			int num = (int)parse_str2longlong(&ret, str_value);
+			long long num = parse_str2longlong(&ret, str_value);
 			if (INI_PARSER_CODE_SUCCEED == ret)
 			{
 				result = (0 == num ? false : true);
-- 
2.43.0


From c9ab4c11ddd128fb45035e56a564c5354ef10a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 58/71] fix: file_util_read and file_util_write left the buffer
 when more than INT_MAX bytes were requested

---
 src/file/file_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1740892..21e8979 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -1,6 +1,7 @@
 #include "mem/mem_debug.h"
 #include "file/file_util.h"
 #include "mem/strings.h"
+#include <limits.h>
 #include <sys/stat.h>
 
 #ifdef _WIN32
@@ -140,6 +141,10 @@ int file_util_write(__in int file_handle, __in void* buffer, __in size_t max_cha
 static int pri_internal_rw_file(int file_handle, void* buffer, size_t max_char_count, rw_func_t target_func)
 {
 	int cur_char_count = 0;
+	if (max_char_count > INT_MAX)
+	{
+		max_char_count = INT_MAX; // the most this function can report
+	}
 	do
 	{
 		int once_op_size = (int)target_func(file_handle, (char*)buffer + cur_char_count, max_char_count - cur_char_count);
-- 
2.43.0


From 2ff3f8430b6c16af68f52e0a17a94f26798eff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:07 +0000
Subject: [PATCH 59/71] fix: file_util_read_all reported a wrong length for
 files over 2 GiB

---
 src/file/file_util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 21e8979..5fc2f6f 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -229,9 +229,14 @@ int file_util_read_all(__in const char* file_path, __out char** out_alloced_file
 	}
 	fseek(fp, 0, SEEK_END);
 	const long file_size = ftell(fp);
-	*out_file_byte_len = (int)file_size;
 	do
 	{
+		if (file_size > INT_MAX)
+		{
+			ret = -6; // out_file_byte_len can't hold the size
+			break;
+		}
+		*out_file_byte_len = (int)file_size;
 		if (file_size < 1)
 		{
 			ret = -3;
-- 
2.43.0


From 2ddb0a9ae2566b419cae35fb57b0d6b181824dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:07 +0000
Subject: [PATCH 60/71] fix: the string of strreplace can be freed by programs
 with the memory check feature on

---
 src/mem/strings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 696fad9..1369c0f 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -1,3 +1,4 @@
+#include "mem/mem_debug.h"
 #include "mem/strings.h"
 #include <malloc.h>
 
-- 
2.43.0


From 06d7db0c5b90c6d5d33ad8fea34b7cc5a402c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:07 +0000
Subject: [PATCH 61/71] fix: str_params works with the memory check feature on

---
 src/mem/str_params.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index b2c4c0f..30d5e23 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -52,11 +52,17 @@ static int str_hash_fn(const void* str)
 	return (int)hash;
 }
 
+// a real function: "free" maybe a macro of memory check feature, its name alone is not what it expands to
+static void free_str(void* str)
+{
+	free(str);
+}
+
 str_params_ptr str_params_create(const char* delimiter)
 {
 	str_params_ptr s = (str_params_ptr)calloc(1, sizeof(struct str_params));
 	if (!s) return NULL;
-	s->map = hashmap_create(16, str_hash_fn, free, free, str_eq, NULL);
+	s->map = hashmap_create(16, str_hash_fn, free_str, free_str, str_eq, NULL);
 	if (!s->map)
 	{
 		free(s);
@@ -345,12 +351,12 @@ typedef struct
 static bool combine_strings(void* key, void* value, void* context)
 {
 	combine_strings_ctx* combine_ctx = (combine_strings_ctx*)context;
-	char* new_str = NULL;
-	int ret = asprintf(&new_str, "%s%s%s=%s",
-		combine_ctx->str ? combine_ctx->str : "",
-		combine_ctx->str ? combine_ctx->params_ptr->delimiter : "",
-		(char*)key,
-		(char*)value);
+	const char* head = combine_ctx->str ? combine_ctx->str : "";
+	const char* delimiter = combine_ctx->str ? combine_ctx->params_ptr->delimiter : "";
+	// allocate it by malloc here (not asprintf), so it can be free by user even if memory check feature is on
+	const size_t new_size = strlen(head) + strlen(delimiter) + strlen((char*)key) + 1U + strlen((char*)value) + 1U;
+	char* new_str = (char*)malloc(new_size);
+	int ret = new_str ? snprintf(new_str, new_size, "%s%s%s=%s", head, delimiter, (char*)key, (char*)value) : -1;
 	if (combine_ctx->str)
 	{
 		free(combine_ctx->str);
-- 
2.43.0


From d3d639d0a83ef2c85c86de5a13a55589752e792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 62/71] fix: more than one C++ source file of a program can
 include mem_debug.h

---
 inc/mem/mem_debug.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inc/mem/mem_debug.h b/inc/mem/mem_debug.h
index d2190dd..03a1673 100644
--- a/inc/mem/mem_debug.h
+++ b/inc/mem/mem_debug.h
@@ -78,10 +78,16 @@
 #include "mem/allocation_tracker.h"
 
 #ifdef __cplusplus
-void* operator new(size_t size, const char* fileName, const char* funcName, int line);
-void* operator new[](size_t size, const char* fileName, const char* funcName, int line);
-void  operator delete(void* ptr) noexcept;
-void  operator delete[](void* ptr) noexcept;
+// more than one source file of a program may include this header: it is one definition for all of them
+#if defined(__GNUC__)
+#define _LCU_MEM_DEBUG_ONE_DEF __attribute__((weak))
+#else
+#define _LCU_MEM_DEBUG_ONE_DEF
+#endif // __GNUC__
+_LCU_MEM_DEBUG_ONE_DEF void* operator new(size_t size, const char* fileName, const char* funcName, int line);
+_LCU_MEM_DEBUG_ONE_DEF void* operator new[](size_t size, const char* fileName, const char* funcName, int line);
+_LCU_MEM_DEBUG_ONE_DEF void  operator delete(void* ptr) noexcept;
+_LCU_MEM_DEBUG_ONE_DEF void  operator delete[](void* ptr) noexcept;
 
 void* operator new(size_t size, const char* fileName, const char* funcName, int line)
 {
-- 
2.43.0


From 30e407405accfc4b4764ecf31cd0ccb10091425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 63/71] fix: with mem_debug.h new doesn't return null, and a
 constructor that throws doesn't leak

---
 inc/mem/mem_debug.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/inc/mem/mem_debug.h b/inc/mem/mem_debug.h
index 03a1673..f6f0a46 100644
--- a/inc/mem/mem_debug.h
+++ b/inc/mem/mem_debug.h
@@ -62,6 +62,7 @@
 #include <cstdio>
 #include <cstdbool>
 #include <cstring>
+#include <new>
 #else
 #include <stdlib.h>
 #include <stdio.h>
@@ -88,12 +89,22 @@ _LCU_MEM_DEBUG_ONE_DEF void* operator new(size_t size, const char* fileName, con
 _LCU_MEM_DEBUG_ONE_DEF void* operator new[](size_t size, const char* fileName, const char* funcName, int line);
 _LCU_MEM_DEBUG_ONE_DEF void  operator delete(void* ptr) noexcept;
 _LCU_MEM_DEBUG_ONE_DEF void  operator delete[](void* ptr) noexcept;
+// these are called if a constructor throws
+_LCU_MEM_DEBUG_ONE_DEF void  operator delete(void* ptr, const char* fileName, const char* funcName, int line) noexcept;
+_LCU_MEM_DEBUG_ONE_DEF void  operator delete[](void* ptr, const char* fileName, const char* funcName, int line) noexcept;
 
 void* operator new(size_t size, const char* fileName, const char* funcName, int line)
 {
 	// here we are not deal with new(0), but it is acceptable,
 	// because if user change return pointer's memory, it will trigger memory corruption on delete it.
-	return lcu_malloc_trace(size, fileName, funcName, line);
+	void* ptr = lcu_malloc_trace(size, fileName, funcName, line);
+#if(defined(__cpp_exceptions) || defined(_CPPUNWIND))
+	if (nullptr == ptr)
+	{
+		throw std::bad_alloc(); // "new" never return null
+	}
+#endif // __cpp_exceptions || _CPPUNWIND
+	return ptr;
 }
 
 void* operator new[](size_t size, const char* fileName, const char* funcName, int line)
@@ -119,6 +130,16 @@ void operator delete[](void* ptr) noexcept
 	operator delete(ptr);
 }
 
+void operator delete(void* ptr, const char* /*fileName*/, const char* /*funcName*/, int /*line*/) noexcept
+{
+	operator delete(ptr);
+}
+
+void operator delete[](void* ptr, const char* /*fileName*/, const char* /*funcName*/, int /*line*/) noexcept
+{
+	operator delete[](ptr);
+}
+
 #define new new(__FILE__, __func__, __LINE__)
 #endif // __cplusplus
 
-- 
2.43.0


From 492184dec7600d39455289403ede80390286a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 64/71] fix: the allocation tracker kept memory at addresses
 that were not aligned for every type

---
 src/mem/allocation_tracker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..2180e5d 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -57,7 +57,8 @@ typedef struct
 } allocation_free_checker_context;
 
 #define ALLOCATION_MAP_INIT_CAPACITY    (1024)
-static const char* canary = "tinybird";
+// 16 bytes, so memory behind it is still aligned for any type of object
+static const char* canary = "tinybirdtinybird";
 
 static size_t canary_size = 0;
 static hashmap_t* allocations = NULL;
-- 
2.43.0


From fcdbba1f4d5838c9275b291d342a64370177460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 65/71] fix: file_logger_init took a log_queue_size of 4 GiB
 and more modulo 4 GiB

---
 src/log/file_logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 110892a..9c4e818 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -62,7 +62,7 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 	{
 		return NULL;
 	}
-	if (cfg_p->log_queue_size < 2U)
+	if (cfg_p->log_queue_size < 2U || cfg_p->log_queue_size > UINT32_MAX / 1024U)
 	{
 		return NULL;
 	}
-- 
2.43.0


From d1960c71d2da951e3fe7b6950aa8b5b41ef31ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 66/71] fix: msg_queue_handler never delivered messages over 1
 GiB (int overflow in the buffer size)

---
 src/ring/msg_queue_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 444d454..88cbc9c 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -27,7 +27,7 @@ static size_t pri_roundup_power2(size_t n)
 		{
 			++counter;
 		}
-		n = (2 << counter);
+		n = ((size_t)2 << counter);
 	}
 	return n;
 }
-- 
2.43.0


From 6323442f271b503f1c5d9fd765c3e6bdd99037c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 67/71] fix: mplite_print_stats printed its 64-bit totals
 modulo 2^32

---
 src/mem/mplite.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mem/mplite.c b/src/mem/mplite.c
index fb488c1..b553d3a 100644
--- a/src/mem/mplite.c
+++ b/src/mem/mplite.c
@@ -286,16 +286,16 @@ MPLITE_API void mplite_print_stats(const mplite_t* const handle,
 		return;
 	}
 	char zStats[256];
-	snprintf(zStats, sizeof(zStats), "Total number of calls to malloc: %u",
-		(unsigned)handle->nAlloc);
+	snprintf(zStats, sizeof(zStats), "Total number of calls to malloc: %llu",
+		(unsigned long long)handle->nAlloc);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Total of all malloc calls - includes "
-		"internal fragmentation: %u", (unsigned)handle->totalAlloc);
+		"internal fragmentation: %llu", (unsigned long long)handle->totalAlloc);
 	putsfunc(zStats);
 
-	snprintf(zStats, sizeof(zStats), "Total internal fragmentation: %u",
-		(unsigned)handle->totalExcess);
+	snprintf(zStats, sizeof(zStats), "Total internal fragmentation: %llu",
+		(unsigned long long)handle->totalExcess);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Current checkout, including internal "
-- 
2.43.0


From 32ff3d2b5e61ba11734ee810b13a9090fcd24d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 68/71] fix: auto_cover_buf_create refuses a capacity its int
 results can't express

---
 src/ring/autocover_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index c1f651d..026414b 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -2,6 +2,7 @@
 #include "ring/autocover_buffer.h"
 #include "ring/ringbuffer.h"
 #include "common_macro.h"
+#include <limits.h>
 #include <malloc.h>
 #include <string.h>
 
@@ -46,6 +47,13 @@ auto_cover_buf_handle auto_cover_buf_create(__in uint32_t capacity_size,
 		free(buf_handle);
 		return NULL;
 	}
+	if (RingBuffer_real_capacity(buf_handle->ring) > INT_MAX)
+	{
+		// all sizes are reported as int
+		RingBuffer_destroy(&buf_handle->ring);
+		free(buf_handle);
+		return NULL;
+	}
 	buf_handle->ring_buffer_size = RingBuffer_real_capacity(buf_handle->ring);
 	return buf_handle;
 }
-- 
2.43.0


From 42e95e261a5ca598b466c7e27548f3a642cf045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:08 +0000
Subject: [PATCH 69/71] fix: ini_reader with INI_USE_STACK 0 calls its own
 ini_reader_malloc

There is no ini_malloc, so a build that keeps the line buffer on the heap did not link.
---
 src/file/ini_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 8d4a2fd..5fa1340 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -120,7 +120,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     int error = 0;
 
 #if !INI_USE_STACK
-    line = (char*)ini_malloc(INI_INITIAL_ALLOC);
+    line = (char*)ini_reader_malloc(INI_INITIAL_ALLOC);
     if (!line) {
         return -2;
     }
-- 
2.43.0


From a0f41a8dfa4deb96094960ceb2ad30ed0e1c2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:08 +0000
Subject: [PATCH 70/71] fix: the heap line buffer of ini_reader that may not
 grow holds INI_MAX_LINE bytes

It had INI_INITIAL_ALLOC bytes, so that lines of 199 characters and more,
which INI_MAX_LINE allows, were torn into several.
---
 src/file/ini_reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 5fa1340..2a53c02 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -103,7 +103,11 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     size_t max_line = INI_MAX_LINE;
 #else
     char* line;
+#if INI_ALLOW_REALLOC
     size_t max_line = INI_INITIAL_ALLOC;
+#else
+    size_t max_line = INI_MAX_LINE; /* the buffer can't grow */
+#endif
 #endif
 #if INI_ALLOW_REALLOC && !INI_USE_STACK
     char* new_line;
@@ -120,7 +124,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     int error = 0;
 
 #if !INI_USE_STACK
-    line = (char*)ini_reader_malloc(INI_INITIAL_ALLOC);
+    line = (char*)ini_reader_malloc(max_line);
     if (!line) {
         return -2;
     }
-- 
2.43.0


From 922ebf6a28e693bf4280567161ae67f24805e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:41 +0000
Subject: [PATCH 71/71] fix: ini_parser with INI_CALL_HANDLER_ON_NEW_SECTION
 refused every section

The reader's handler reports an error with 0, and that is what it returned for
the call that announces a section, where it meant to continue.
---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 0a1ca80..a117faa 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -91,7 +91,7 @@ static int ini_handler_cb(void* user,
 {
 	if (NULL == section || NULL == key)
 	{
-		return 0;// just continue to parse file
+		return 1;// nothing to store, just continue to parse file
 	}
 	ini_parser_handle parser_p = (ini_parser_handle)user;
 	return INI_PARSER_CODE_SUCCEED == ini_parser_put_string(parser_p, section, key, value);
-- 
2.43.0

