From 8fc9e349f50cfce00e53df382d25b1e3fde3956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 01/41] fix: lst_truncate walked off the end of the list for
 length >= 2

---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From 36f5973951e1d68af26a8ea24f8377d2b9af08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 02/41] fix: bit_tst reported bits 32..63 as clear (result
 truncated to int)

---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From ef19e45a2e2ac0d7dd261d3100602aee8fc727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 03/41] fix: mem_strncpy read past the len bytes it was given
 and did not terminate the copy

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From 1b71f9457894d0e0cff5fb5e3447c17021d0f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 04/41] fix: str_pool_finish returned a second copy of a string
 already in the pool

---
 maa/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..ba6c4f2 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -221,9 +221,10 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *found;
 
-	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
-	datum = mem_finish( p->string );
+	datum = mem_finish( p->string ); /* null terminates the string */
+	if ((found = hsh_retrieve( p->hash, datum ))) return found;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From 166a18e4c3c3bddb387f48243ee1914b6299beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 05/41] fix: str_exists, str_copyn and str_unique crashed
 before the global pool existed

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index ba6c4f2..1dc248b 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -288,6 +288,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -336,6 +337,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 7accbac5a81736726bdbf8959fa814faace73cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 06/41] fix: str_pool_iterate left the pool readonly after an
 early stop

---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 1dc248b..21d0b5b 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 54cf74f0aef7f36a3179f3ac2e3baa8ae4678908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 07/41] fix: str_pool_readonly and STR_ITERATE_END could not be
 used on a string pool

---
 maa/export.sym | 1 +
 maa/maa.h      | 4 ++--
 maa/string.c   | 7 +++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..d2fe728 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index 21d0b5b..f2f7e9d 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,13 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From c417c0f6eee9b0dff8c0e94ec2a459394ffe8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 08/41] fix: prm_is_prime said 1 is prime and overflowed near
 2^32

---
 maa/prime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..0d667de 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,8 +43,9 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	unsigned long long square = divisor * divisor; /* may exceed 32 bits */
 
+	if (value < 2)    return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From 024d444e7c3cff6deabae3a97657e40a60035152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 09/41] fix: b64_encode and b64_decode lost the bits above the
 31st or 32nd

---
 maa/base64.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..6f7ba11 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -81,19 +81,16 @@ static int b64_index[256] = {
 
 const char *b64_encode(unsigned long val)
 {
-	static char   result[7];
-	int    i;
+	static char   result[12];	/* 11 digits hold a 64-bit value */
+	int    i = sizeof(result) - 1;
 
-	result[0] = b64_list[(val & 0xc0000000) >> 30 ];
-	result[1] = b64_list[(val & 0x3f000000) >> 24 ];
-	result[2] = b64_list[(val & 0x00fc0000) >> 18 ];
-	result[3] = b64_list[(val & 0x0003f000) >> 12 ];
-	result[4] = b64_list[(val & 0x00000fc0) >>  6 ];
-	result[5] = b64_list[(val & 0x0000003f)       ];
-	result[6] = 0;
+	result[i] = 0;
+	do {
+		result[--i] = b64_list[val & 0x3f];
+		val >>= 6;
+	} while (val);
 
-	for (i = 0; i < 5; i++) if (result[i] != b64_list[0]) return result + i;
-	return result + 5;
+	return result + i;
 }
 
 unsigned long b64_decode_buf(const char *val, size_t len)
@@ -103,13 +100,14 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 	int           offset = 0;
 
 	for (i = len - 1; i >= 0; i--) {
-		int tmp = b64_index[ (unsigned char)val[i] ];
+		unsigned long tmp = b64_index[ (unsigned char)val[i] ];
 
 		if (tmp == XX)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		if (offset < (int)sizeof(v) * CHAR_BIT)
+			v |= tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From c261e3814636087b09143036fe3697d2ba6e6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 10/41] fix: b26_encode and b26_decode lost the high digits of
 large values

---
 maa/base26.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..d7d937c 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -61,28 +61,23 @@ static int b26_index[256] = {
 
 const char *b26_encode(unsigned long val)
 {
-	static char          result[8] = { 'a', 'a', 'a', 'a', 'a', 'a', 'a', '\0'};
-	static unsigned long previous = 0;
-	int                  i;
+	static char          result[15]; /* 14 digits hold a 64-bit value */
+	int                  i = sizeof(result) - 1;
 
-	if (previous != val) {
-		previous = val;
-		for (i = 6; i >= 0; i--) {
-			result[i] = b26_list[ val % 26 ];
-			val = val / 26;
-		}
-		result[7] = 0;
-	}
+	result[i] = 0;
+	do {
+		result[--i] = b26_list[ val % 26 ];
+		val = val / 26;
+	} while (val);
 
-	for (i = 0; i < 6; i++) if (result[i] != b26_list[0]) return result + i;
-	return result + 6;
+	return result + i;
 }
 
 unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From 4fbec6df9336f86cb018200d7189a03c806a4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 11/41] fix: dbg_test and flg_test looked up the third set of
 flags in the fourth

---
 maa/debug.c | 2 +-
 maa/flags.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..456ff50 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,7 +38,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30) & 1                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..bb8aa77 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,7 +37,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30) & 1                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
-- 
2.43.0


From 9fa75eba4830a2e0caf6aa38cdab730a514675d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/41] fix: dbg_register and flg_register did not notice a
 flag registered twice

---
 maa/debug.c | 1 +
 maa/flags.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index 456ff50..0d22f14 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -101,6 +101,7 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |dbg_register| is used to set up an asociated between a |flag| and
diff --git a/maa/flags.c b/maa/flags.c
index bb8aa77..1850fa3 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -101,6 +101,7 @@ void flg_register(flg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |flg_set| sets the |name| flag.  If |name| is ``none,'' then all
-- 
2.43.0


From dcfddfeaa3344bb40165dc68fddfb866d303b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/41] fix: dbg_set accepted unknown names with a sign and
 known ones with any first character

---
 maa/debug.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 0d22f14..cf2da1a 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,10 +142,9 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
-	 
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
+
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
 			err_fatal(__func__,
-- 
2.43.0


From 75b9ea5585a715e4136d8e5692eb04e160418f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 14/41] fix: timers only had a resolution of one second

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From f20cd328b3d54e766a7b334c9cdcfcaf436c0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 15/41] fix: pr_readwrite and pr_filter hung when there was no
 input to write

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..2adc892 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -316,6 +316,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {		/* nothing to write: the filter must see EOF */
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From 5143d2b32cd25cefafbff654e4cc535cbdf5e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 16/41] fix: pr_readwrite silently truncated output that did
 not fit the buffer

---
 maa/pr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 2adc892..a191d85 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -295,6 +295,7 @@ int pr_readwrite(int in, int out,
 	int            count;
 	int            retval;
 	int            status;
+	char           extra;
    
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
@@ -364,7 +365,10 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* With a full buffer, tell the end of output from overflow */
+				if (outMaxLen) count = read(out, outPt, outMaxLen);
+				else           count = read(out, &extra, 1);
+				if (count <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
@@ -378,10 +382,11 @@ int pr_readwrite(int in, int out,
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
+					if (count > outMaxLen)
+						err_fatal(__func__, "Output buffer overflow");
 					outLen    += count;
 					outPt     += count;
-					if ((outMaxLen -= count) < 0)
-						err_fatal(__func__, "Output buffer overflow");
+					outMaxLen -= count;
 				}
 				break;
 		}
-- 
2.43.0


From a5378f0ed7fdf863e0d87a0c18d007c1f3934721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 17/41] fix: pr_readwrite died when a signal handler
 interrupted it

---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index a191d85..b3346ca 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -337,7 +337,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno == EINTR) continue;
+				err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -353,7 +356,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -378,7 +381,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From a9d0c55f62198b681077e62172a0905d295f53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 18/41] fix: src_destroy kept the line count, so a new source
 manager wrote past its table

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..42a862b 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Used = Count = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From c4cd52027e7ebedb42403e642e82e9e3cf26bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 19/41] fix: src_parse_error overran its buffer or the message
 on long or unterminated symbols

---
 maa/source.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 42a862b..0950eb4 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -312,8 +312,8 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
-	char       *b;
+	char       *symbol;
+	size_t     len;
 	const char *concrete;
 
 	assert(str);
@@ -329,12 +329,17 @@ static void _src_print_yyerror(FILE *str, const char *message)
 				fprintf(str, "`%c'", pt[2]);
 				pt += 4;
 			} else if (pt[1] == 'T' && pt[2] == '_') { /* replace symbols */
-				for (b = buf, ++pt; *pt && *pt != '\''; b++, pt++) *b = *pt;
-				*b = '\0';
-				if ((concrete = prs_concrete(buf)))
+				len = strcspn(pt + 1, "'");
+				symbol = xmalloc(len + 1);
+				memcpy(symbol, pt + 1, len);
+				symbol[len] = '\0';
+				if ((concrete = prs_concrete(symbol)))
 					fprintf(str, "`%s'", concrete);
 				else
-					fprintf(str, "`%s'", buf);
+					fprintf(str, "`%s'", symbol);
+				xfree(symbol);
+				pt += len;
+				if (pt[1]) ++pt; /* closing quote */
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 6c0f82e2d99bd85ddb9b9a6308ee29042d09121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 20/41] fix: _prs_shutdown left a pointer to the destroyed
 symbol table

---
 maa/parse-concrete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From add027d100e3adc73d1e6f21f8157f7147a6bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 21/41] fix: set_add and set_del of a set and itself used freed
 memory

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index c338d15..7db484c 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -499,6 +499,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* nothing to add */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -537,9 +539,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next; /* Save, because set1 may be set2. */
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From 3d188bc7d380e50a351006c48bcdc1848ae1fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 22/41] fix: src_print_error and src_print_message crashed on a
 NULL stream instead of using stdout

---
 maa/maa.h    |  2 +-
 maa/source.c | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/maa/maa.h b/maa/maa.h
index d2fe728..086944f 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -576,7 +576,7 @@ extern void       src_parse_error(FILE *stream, src_Type source,
 								  const char *message);
 extern void       src_print_error(FILE *stream, src_Type source,
 								  const char *format, ...);
-extern void       src_print_message(FILE *str, src_Type source,
+extern void       src_print_message(FILE *stream, src_Type source,
 									const char *format, ...);
 extern void       src_print_line(FILE *stream, src_Type source);
 extern src_Stats  src_get_stats(void);
diff --git a/maa/source.c b/maa/source.c
index 0950eb4..2e0449d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -410,10 +410,11 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
@@ -432,10 +433,11 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 
 /* \doc |src_print_message| will just print a message labeled with a line. */
 
-void src_print_message(FILE *str, src_Type source, const char *format, ...)
+void src_print_message(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
-- 
2.43.0


From 2ca0f932b74009cac9065632f6dbfe310ef9759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 23/41] fix: hash, set and object handles were used before they
 were checked

---
 maa/hash.c   | 9 ++++++---
 maa/memory.c | 3 ++-
 maa/set.c    | 9 ++++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..5f6474e 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,10 +219,11 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
+	hashValue = t->hash(key);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
    
@@ -268,9 +269,10 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
@@ -301,9 +303,10 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..3e30033 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,9 +304,10 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
+	obj = stk_pop(i->stack);
 
 	if (!obj) {
 		obj = xmalloc(i->size);
diff --git a/maa/set.c b/maa/set.c
index 7db484c..71de6b1 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,10 +226,11 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
+	hashValue = t->hash(elem);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
    
@@ -274,9 +275,10 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
@@ -305,9 +307,10 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
-- 
2.43.0


From 522a6c758543747262c31a2bbd814ca4360a9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 24/41] fix: stk_push dereferenced NULL when out of memory

---
 maa/stack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..8cfa79c 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
@@ -92,7 +92,7 @@ void *stk_pop(stk_Stack stack)
 		datum = __UNCONST(old->datum); /* Discard const */
 		s->data = s->data->prev;
 
-		free(old);
+		xfree(old);
 	}
 
 	return datum;
-- 
2.43.0


From f4985669694bee1c0a1512a0ad75336676c9297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 25/41] fix: sl_iterate overflowed the stack on a large list

---
 maa/sl.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..37e9f7f 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -399,13 +399,17 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* may be too big for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
@@ -436,14 +440,18 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* may be too big for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
-- 
2.43.0


From 8aba6f868c19e0cf4ff450285745acb8c9b3d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 26/41] fix: maa_shutdown freed the strings of the symbol table
 but kept the table

---
 maa/maa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..e3339b4 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();	/* its strings are in the global pool */
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
-- 
2.43.0


From 43d451168f002bb4e414e9dad491c6e1b9a1e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 27/41] fix: look-ups made by an hsh_iterate callback disturbed
 the iteration

hsh_retrieve moved the entry it found to the front of its chain also while
hsh_iterate was walking that chain, so that entries were presented twice or
not at all.  As for readonly tables, do not reorganize during an iteration.
---
 maa/hash.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 5f6474e..c6b1b4a 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -55,6 +55,7 @@ typedef struct table {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           iterating; /* hsh_iterate calls in progress */
 } *tableType;
 
 static void _hsh_check(tableType t, const char *function)
@@ -95,6 +96,7 @@ static hsh_HashTable _hsh_create(
 	t->hash       = hash ? hash : hsh_string_hash;
 	t->compare    = compare ? compare : hsh_string_compare;
 	t->readonly   = 0;
+	t->iterating  = 0;
 
 	for (i = 0; i < prime; i++) t->buckets[i] = NULL;
 
@@ -317,7 +319,7 @@ const void *hsh_retrieve(hsh_HashTable table,
 			if (!t->compare(pt->key, key)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!t->readonly && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -348,16 +350,20 @@ int hsh_iterate(hsh_HashTable table,
 	bucketType    next;		/* Save, because pt might vanish. */
 
 	_hsh_check(t, __func__);
-   
+
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum))
+				if (iterator(pt->key, pt->datum)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
@@ -381,15 +387,19 @@ int hsh_iterate_arg(hsh_HashTable table,
 
 	_hsh_check(t, __func__);
 
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum, arg))
+				if (iterator(pt->key, pt->datum, arg)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
-- 
2.43.0


From 0ea70f640dd7789f98cbe67c38f39e903d4e425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 28/41] fix: src_destroy kept the position if no line had been
 stored yet

---
 maa/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 2e0449d..bb199f4 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -74,13 +74,13 @@ void src_create(void)
 
 void src_destroy(void)
 {
+	memset(&Info, 0, sizeof(Info));
 	if (!Lines) return;
 	mem_destroy_objects(InfoHeap);
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
 	Used = Count = 0;
-	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 06680c2de71b455c3e583d242c4fa949473b471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 29/41] fix: pr_close read outside the table for a descriptor
 out of range

---
 maa/pr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index b3346ca..fb57bb9 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -265,7 +265,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From e54543100d14de46508ce890218bde075790d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 30/41] fix: pr_spawn left the pipes of other children open in
 its child

---
 maa/pr.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index fb57bb9..f391bca 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -109,6 +109,16 @@ void _pr_shutdown(void)
 }
 
 
+/* In a child: do not keep the ends of the pipes of other children open. */
+
+static void _pr_close_others(void)
+{
+	int i;
+
+	for (i = 0; i < max_fd(); i++)
+		if (_pr_objects[i].pid > 0) close(i);
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -158,8 +168,6 @@ int pr_open2(const char *command, void(*callback)(void),
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
-		int        i;
-
 		if (callback)
 			callback();
 
@@ -192,8 +200,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-		for (i = 0; i < max_fd(); i++)
-			if (_pr_objects[i].pid > 0) close(i);
+		_pr_close_others();
 
 		execvp(argv[0], argv);
 		_exit(127);
@@ -426,6 +433,8 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
+		_pr_close_others();
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 16cba0df662190bd6c52eacfa5e75aeb2d0294cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 31/41] fix: an empty command crashed the child instead of
 failing with 127

---
 maa/pr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index f391bca..eeae2de 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -155,7 +155,7 @@ int pr_open2(const char *command, void(*callback)(void),
 
 	list = arg_argify(command, 0);
 	arg_get_vector(list, &argc, &argv);
-	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
+	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argc ? argv[0] : "", command));
 
 	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
@@ -202,7 +202,7 @@ int pr_open2(const char *command, void(*callback)(void),
       
 		_pr_close_others();
 
-		execvp(argv[0], argv);
+		if (argc) execvp(argv[0], argv);
 		_exit(127);
 	}
 	/* parent */
@@ -427,7 +427,7 @@ int pr_spawn(const char *command)
 
 	list = arg_argify(command, 0);
 	arg_get_vector(list, &argc, &argv);
-	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
+	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argc ? argv[0] : "", command));
    
 	if ((pid = fork()) < 0)
 		err_fatal_errno(__func__, "Cannot fork");
@@ -435,7 +435,7 @@ int pr_spawn(const char *command)
 	if (pid == 0) {		/* child */
 		_pr_close_others();
 
-		execvp(argv[0], argv);
+		if (argc) execvp(argv[0], argv);
 		_exit(127);
 	}
    
-- 
2.43.0


From b22d05029d7f83aa45e39ed251a6efe36770354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 32/41] fix: pr_open wired a child wrongly if the caller had
 closed a standard descriptor

---
 maa/pr.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index eeae2de..f065b9f 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -119,6 +119,26 @@ static void _pr_close_others(void)
 		if (_pr_objects[i].pid > 0) close(i);
 }
 
+/* Create a pipe that does not take the place of a closed standard
+   descriptor, which could not be told from the child's own ones. */
+
+static int _pr_pipe(int fds[2])
+{
+	int tmp[2];
+	int i;
+
+	if (pipe(tmp) < 0) return -1;
+	for (i = 0; i < 2; i++) {
+		fds[i] = tmp[i];
+		if (tmp[i] <= STDERR_FILENO)
+			fds[i] = fcntl(tmp[i], F_DUPFD, STDERR_FILENO + 1);
+	}
+	for (i = 0; i < 2; i++)
+		if (fds[i] != tmp[i]) close(tmp[i]);
+
+	return fds[0] < 0 || fds[1] < 0 ? -1 : 0;
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -157,11 +177,11 @@ int pr_open2(const char *command, void(*callback)(void),
 	arg_get_vector(list, &argc, &argv);
 	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argc ? argv[0] : "", command));
 
-	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
+	if ((flags & PR_CREATE_STDIN) && _pr_pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
-	if ((flags & PR_CREATE_STDOUT) && pipe(fdout) < 0)
+	if ((flags & PR_CREATE_STDOUT) && _pr_pipe(fdout) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdout");
-	if ((flags & PR_CREATE_STDERR) && pipe(fderr) < 0)
+	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
 	if ((pid = fork()) < 0)
@@ -181,7 +201,8 @@ int pr_open2(const char *command, void(*callback)(void),
 				dup2(*fd, FILENO);								\
 				close(*fd);										\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
+				null = open("/dev/null", flag);					\
+				if (null >= 0 && null != FILENO) {				\
 					dup2(null, FILENO);							\
 					close(null);								\
 				}												\
-- 
2.43.0


From 5df435a038664545511bffca9c337b2145d49443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 33/41] fix: pr_open could not give one descriptor to two of
 the child's streams

---
 maa/pr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index f065b9f..e92dcbe 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -198,8 +198,7 @@ int pr_open2(const char *command, void(*callback)(void),
 			close(fds[readfd]);                                 \
 		} else if (flags & USE) {								\
 			if (fd && *fd) {									\
-				dup2(*fd, FILENO);								\
-				close(*fd);										\
+				dup2(*fd, FILENO); /* closed below */			\
 			} else {											\
 				null = open("/dev/null", flag);					\
 				if (null >= 0 && null != FILENO) {				\
@@ -218,6 +217,14 @@ int pr_open2(const char *command, void(*callback)(void),
       
 #undef CHILD
 
+		/* Only now: one descriptor may be given for several streams */
+		if ((flags & PR_USE_STDIN) && infd && *infd > STDERR_FILENO)
+			close(*infd);
+		if ((flags & PR_USE_STDOUT) && outfd && *outfd > STDERR_FILENO)
+			close(*outfd);
+		if ((flags & PR_USE_STDERR) && errfd && *errfd > STDERR_FILENO)
+			close(*errfd);
+
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-- 
2.43.0


From c4e77e5ff60674f9f0da4a7232412c79941b25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 34/41] fix: log_file: do not overrun the buffers when the file
 name expands to a long one

---
 maa/log.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..cfe00d9 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -208,7 +208,15 @@ static void _log_check_filename(void)
 	time(&t);
 	tm = localtime(&t);
    
-	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
+	while (!strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm)) {
+		/* the expansion does not fit into the buffer */
+		if (logFilenameLen > 1024 * 1024)
+			err_fatal(__func__, "Cannot expand \"%s\"", logFilenameOrig);
+
+		logFilenameLen *= 2;
+		logFilename     = xrealloc(logFilename, logFilenameLen + 1);
+		logFilenameTmp  = xrealloc(logFilenameTmp, logFilenameLen + 1);
+	}
 	if (strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
-- 
2.43.0


From 5cd519a6f095ac949675f38f5c393fcd9cc8a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 35/41] fix: pr_readwrite: descriptors above FD_SETSIZE

The descriptors of the filter were put into fd_sets, which overflowed the
stack in a process with 1024 or more open descriptors. Use poll(2).
---
 maa/pr.c | 48 +++++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index e92dcbe..7d3f0f9 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -35,6 +35,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/param.h>
 #include <sys/wait.h>
 
@@ -324,9 +325,7 @@ int pr_readwrite(int in, int out,
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
 	int            outLen = 0;
-	fd_set         rfds, wfds, efds;
-	struct timeval tv;
-	int            n;
+	struct pollfd  fds[2];	/* not select(2): fd may be >= FD_SETSIZE */
 	int            count;
 	int            retval;
 	int            status;
@@ -350,27 +349,18 @@ int pr_readwrite(int in, int out,
 #endif
 	fcntl(out, F_SETFL, flags);
 
-	n = max(in, out) + 1;
-
-	if (!inLen) {		/* nothing to write: the filter must see EOF */
+	if (!inLen)		/* nothing to write: the filter must see EOF */
 		pr_close_nowait(in);
-		n = out + 1;
-	}
 
 	for (;;) {
-		tv.tv_sec  = 5;
-		tv.tv_usec = 0;
-		FD_ZERO(&rfds);
-		FD_ZERO(&wfds);
-		FD_ZERO(&efds);
-		FD_SET(out, &rfds);
-		FD_SET(out, &efds);
-		if (inLen) {
-			FD_SET(in, &wfds);
-			FD_SET(in, &efds);
-		}
-   
-		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
+		fds[0].fd      = out;
+		fds[0].events  = POLLIN;
+		fds[0].revents = 0;
+		fds[1].fd      = in;
+		fds[1].events  = POLLOUT;
+		fds[1].revents = 0;
+
+		switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))
 		{
 			case -1:
 				if (errno == EINTR) continue;
@@ -379,15 +369,13 @@ int pr_readwrite(int in, int out,
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-					printf("select(2) returns %d,"
+					printf("poll(2) returns %d,"
 						   " inLen = %d, outLen = %d, outMaxLen = %d\n",
 						   retval, inLen, outLen, outMaxLen);
-					if (FD_ISSET(in, &rfds))  printf("  in/read\n");
-					if (FD_ISSET(out, &rfds)) printf("  out/read\n");
-					if (FD_ISSET(in, &wfds))  printf("  in/write\n");
-					if (FD_ISSET(out, &wfds)) printf("  out/write\n");
-					if (FD_ISSET(in, &efds))  printf("  in/error\n");
-					if (FD_ISSET(out, &efds)) printf("  out/error\n");
+					if (fds[0].revents & POLLIN)  printf("  out/read\n");
+					if (fds[1].revents & POLLOUT) printf("  in/write\n");
+					if (fds[0].revents & POLLERR) printf("  out/error\n");
+					if (fds[1].revents & POLLERR) printf("  in/error\n");
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
@@ -397,10 +385,8 @@ int pr_readwrite(int in, int out,
 						PRINTF(MAA_PR,("  wrote %d\n",count));
 						inLen -= count;
 						inPt  += count;
-						if (!inLen) {
+						if (!inLen)
 							pr_close_nowait(in);
-							n = out + 1;
-						}
 					}
 				}
 				/* With a full buffer, tell the end of output from overflow */
-- 
2.43.0


From ff9d107ba6b506def9bdd7a34947756f529a2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 36/41] fix: pr_*: the limit of open files may be raised after
 the first use

The table of children was sized by the limit at the time of the first
call and then indexed by larger descriptors.
---
 maa/pr.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 7d3f0f9..41197e1 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -44,6 +44,7 @@ typedef struct _pr_Obj {
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
+static int     _pr_count   = 0;
 
 #if 0
 static void _pr_check(pr_Object object, const char *function)
@@ -87,8 +88,25 @@ static int max_fd(void)
 
 static void _pr_init(void)
 {
-	if (!_pr_objects)
-		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
+	if (!_pr_objects) {
+		_pr_count   = max_fd();
+		_pr_objects = xcalloc(_pr_count, sizeof(struct _pr_Obj));
+	}
+}
+
+/* The limit of open files may have been raised since _pr_init(). */
+
+static void _pr_set(int fd, int pid)
+{
+	int i = _pr_count;
+
+	if (fd >= _pr_count) {
+		_pr_count   = fd + 256;
+		_pr_objects = xrealloc(_pr_objects,
+							   _pr_count * sizeof(struct _pr_Obj));
+		for (; i < _pr_count; i++) _pr_objects[i].pid = 0;
+	}
+	_pr_objects[fd].pid = pid;
 }
 
 void _pr_shutdown(void)
@@ -96,7 +114,7 @@ void _pr_shutdown(void)
 	int i;
 
 	if (_pr_objects) {
-		for (i = 0; i < max_fd(); i++) {
+		for (i = 0; i < _pr_count; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
 				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
@@ -116,7 +134,7 @@ static void _pr_close_others(void)
 {
 	int i;
 
-	for (i = 0; i < max_fd(); i++)
+	for (i = 0; i < _pr_count; i++)
 		if (_pr_objects[i].pid > 0) close(i);
 }
 
@@ -239,12 +257,12 @@ int pr_open2(const char *command, void(*callback)(void),
 	if (flags & CREATE) {									\
 		close(fds[ readfd ]);                               \
 		*fd = fds[ writefd ];								\
-		_pr_objects[ *fd ].pid = pid;						\
+		_pr_set(*fd, pid);									\
 		PRINTF(MAA_PR,(name " = %d; ",*fd));				\
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			_pr_objects[ *fd ].pid =0;						\
+			_pr_set(*fd, 0);								\
 			close(*fd);										\
 		}													\
 	}
@@ -301,7 +319,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= _pr_count || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From 387d52e84f62c85a60e39539fdf26ffd70ed443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 37/41] fix: sl_create: without a key function the datum is the
 key, as documented

---
 maa/sl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index 37e9f7f..bfa5601 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -158,6 +158,11 @@ static _sl_Entry _sl_create_entry(int maxLevel, const void *datum)
 	return e;
 }
 
+static const void *_sl_datum_key(const void *datum)
+{
+	return datum;
+}
+
 /* \doc |sl_create| initializes a skip list.  The |compare| function
    returns -1, 0, or 1 depending on the ordering of |key1| and |key2|.  The
    |key| function converts a |datum| into a |key|.  The |print| function
@@ -182,8 +187,6 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 
 	if (!compare)
 		err_internal(__func__, "compare function is NULL");
-	if (!key)
-		err_internal(__func__, "key function is NULL");
 
 	l          = mem_get_object(_sl_Memory);
 #if MAA_MAGIC
@@ -192,7 +195,7 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 	l->level   = 0;
 	l->head    = _sl_create_entry(_sl_MaxLevel, NULL);
 	l->compare = compare;
-	l->key     = key;
+	l->key     = key ? key : _sl_datum_key;
 	l->print   = print;
 	l->count   = 0;
 
-- 
2.43.0


From 7a1ee51da9e7168218f91178b48ec45df511833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 38/41] fix: do not kill processes that were waited for at
 shutdown

_pr_shutdown sent SIGKILL once for every descriptor of a child, also after
the child had been waited for, when its pid may belong to another process.
---
 maa/pr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 41197e1..85d8446 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -117,8 +117,12 @@ void _pr_shutdown(void)
 		for (i = 0; i < _pr_count; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* After a child was waited for (it may have several
+				   descriptors), its pid may belong to another process */
+				if (!waitpid(_pr_objects[i].pid, NULL, WNOHANG)) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From 8675dec888b93bfdcdfb3cddfcdd4907bb6cd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 39/41] fix: nested iterations of a string pool leave the outer
 one read-only

str_pool_iterate and str_pool_iterate_arg made the pool writable when they
ended, even when called from within another iteration of the same pool:
look-ups in the outer callback then moved strings within the chains being
walked and a string was presented twice.  Save and restore the flag, as
hsh_iterate does.
---
 maa/string.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index f2f7e9d..8374724 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -116,16 +116,18 @@ int str_pool_iterate(
 	hsh_HashTable hash = p -> hash;
 	hsh_Position  hash_pos;
 	void *key;
+	int           savedReadonly = hsh_readonly (hash, 0);
 
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
 		if ((*iterator) ((const char *) key)){
-			HSH_ITERATE_END (hash);
+			hsh_readonly (hash, savedReadonly);
 			return 1;
 		}
 	}
 
+	hsh_readonly (hash, savedReadonly);
 	return 0;
 }
 
@@ -146,14 +148,16 @@ int str_pool_iterate_arg(
 	hsh_HashTable hash = p -> hash;
 	hsh_Position  hash_pos;
 	void *key;
+	int           savedReadonly = hsh_readonly (hash, 0);
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
 		if ((*iterator) (key, arg)){
-			HSH_ITERATE_END (hash);
+			hsh_readonly (hash, savedReadonly);
 			return 1;
 		}
 	}
 
+	hsh_readonly (hash, savedReadonly);
 	return 0;
 }
 
-- 
2.43.0


From fa6f53a4b0b4f8a18b851e8def197ad988fbe5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 40/41] fix: long strings overflowed the stack in str_findn and
 str_unique

The temporary copies were allocated with alloca; a string of several
megabytes crashed the process.
---
 maa/string.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index 8374724..e511f73 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -323,13 +323,16 @@ const char *str_find( const char *s )
 
 const char *str_findn( const char *s, int length )
 {
-	char *tmp = alloca( sizeof( char ) * (length + 1) );
+	char       *tmp = xmalloc( length + 1 ); /* may not fit the stack */
+	const char *result;
 
 	_str_check_global();
 	strncpy( tmp, s, length);
 	tmp [ length ] = 0;
 
-	return str_pool_find( global, tmp );
+	result = str_pool_find( global, tmp );
+	xfree( tmp );
+	return result;
 }
 
 /* \doc |str_copy| acts like |str_pool_copy|, except the global string pool
@@ -384,12 +387,15 @@ const char *str_finish( void )
 const char *str_unique( const char *prefix )
 {
 	static int i       = 1;
-	char       *buf    = alloca( strlen( prefix ) + 100 );
+	char       *buf    = xmalloc( strlen( prefix ) + 100 );
+	const char *result;
 
 	do {
 		sprintf( buf, "%s%d", prefix, i++ );
 	} while (str_exists( buf ));
-	return str_find( buf );
+	result = str_find( buf );
+	xfree( buf );
+	return result;
 }
 
 /* \doc |str_destroy| frees all of the memory associated with the global
-- 
2.43.0


From 7bc25620b4c3492bce5c947592db490026b44e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 41/41] fix: a long line marker overflowed the stack in
 src_cpp_line

---
 maa/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index bb199f4..ea8a080 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -133,13 +133,14 @@ void src_advance(int length)
 void src_cpp_line(const char *line, int length)
 {
 	arg_List args;
-	char     *tmp = alloca(length + 1);
+	char     *tmp = xmalloc(length + 1); /* may not fit the stack */
 	int      lineno;
 
 	strncpy(tmp, line, length);
 	tmp [ length ] = '\0';
 
 	args = arg_argify(tmp, 0);
+	xfree(tmp);
 
 	if ((lineno = atoi(arg_get(args, 1))) > 0) --lineno;
 	else                                           lineno = 1;
-- 
2.43.0

