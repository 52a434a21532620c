From 76d059f887a4ea267afb786e7be25d70b0213732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 01/11] fix: x86-64 memcpy helper must not modify its input
 operands

The x86-64 rseq_load_cbne_memcpy_store__ptr helper advanced its src, dst
and len input registers. The compiler may share those registers with
other input operands holding the same value (e.g. newv == len, or the
base of the v memory operand == dst), in which case the final store wrote
a wrong value or hit a wrong address.

Use a clobbered index register instead. This also makes the critical
section branch directly to the labels published in the exit point array
rather than to unlisted teardown handlers.
---
 include/rseq/arch/x86/bits.h | 71 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 50 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..f7eedeb 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -418,8 +418,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -429,63 +427,39 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		"movq %[src], %[rseq_scratch0]\n\t"
-		"movq %[dst], %[rseq_scratch1]\n\t"
-		"movq %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, RSEQ_ASM_TP_SEGMENT:RSEQ_ASM_CS_OFFSET(%[rseq_offset]))
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 4f)
 		RSEQ_INJECT_ASM(3)
 		"cmpq %[v], %[expect]\n\t"
-		"jne 5f\n\t"
+		"jne %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), %l[error1])
 		"cmpq %[v], %[expect]\n\t"
-		"jne 7f\n\t"
+		"jne %l[error2]\n\t"
 #endif
-		/* try memcpy */
-		"test %[len], %[len]\n\t" \
-		"je 333f\n\t" \
-		"222:\n\t" \
-		"movb (%[src]), %%al\n\t" \
-		"movb %%al, (%[dst])\n\t" \
-		"inc %[src]\n\t" \
-		"inc %[dst]\n\t" \
-		"dec %[len]\n\t" \
-		"jnz 222b\n\t" \
-		"333:\n\t" \
+		/*
+		 * try memcpy: index with rbx rather than advancing the
+		 * input operands, because the compiler is allowed to
+		 * share their registers with other input operands.
+		 */
+		"test %[len], %[len]\n\t"
+		"je 333f\n\t"
+		"xorl %%ebx, %%ebx\n\t"
+		"222:\n\t"
+		"movb (%[src],%%rbx), %%al\n\t"
+		"movb %%al, (%[dst],%%rbx)\n\t"
+		"incq %%rbx\n\t"
+		"cmpq %[len], %%rbx\n\t"
+		"jne 222b\n\t"
+		"333:\n\t"
 		RSEQ_INJECT_ASM(5)
 		/* final store */
 		"movq %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		"movq %[rseq_scratch2], %[len]\n\t"
-		"movq %[rseq_scratch1], %[dst]\n\t"
-		"movq %[rseq_scratch0], %[src]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [rseq_offset]		"r" ((long long int) rseq_offset),
@@ -496,11 +470,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
-		: "memory", "cc", "rax"
+		  [len]			"r" (len)
+		: "memory", "cc", "rax", "rbx"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From 257e55bc0fa2f136d8af39d2ddfe13f43679d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 02/11] fix: rseq_mempool_set_percpu_malloc_init ignored the
 init values

It requested a zeroed item, which takes precedence over init_ptr.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From 083c9f3c0c745ca977e2039c81e6a1a2468ff599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 03/11] fix: rseq_mempool_destroy returned success when a range
 was not released

---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..d38b538 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From cbbd73c37768e9c8ad11de1be66acc0f96791916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 04/11] fix: refuse item lengths which overflow when rounded to
 a power of two

The shift by the word size is undefined behavior, and turned huge item
lengths into a small item size rather than EINVAL.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d38b538..6700d63 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -938,7 +938,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From 90f3c8d0bbf26457948b5fd68efbe08a7e338eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 05/11] fix: refuse pool ranges whose length overflows size_t

A large stride and number of CPUs could wrap around to a small mapping
length, creating a pool which does not back all its CPUs.
---
 src/rseq-mempool.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 6700d63..05c0057 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -754,6 +754,14 @@ struct rseq_mempool_range *rseq_mempool_range_create(struct rseq_mempool *pool)
 	}
 	page_size = rseq_get_page_len();
 
+	/*
+	 * The header, per-cpu areas, init values, free list and alignment
+	 * must not overflow the mapping length.
+	 */
+	if (pool->attr.stride > SIZE_MAX / ((size_t) pool->attr.max_nr_cpus + POOL_HEADER_NR_PAGES + 3)) {
+		errno = ENOMEM;
+		return NULL;
+	}
 	header_len = POOL_HEADER_NR_PAGES * page_size;
 	range_len = pool->attr.stride * pool->attr.max_nr_cpus;
 	if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)
-- 
2.43.0


From a00d8b8c36081ccf268e7d22ed050ed1426637ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 06/11] fix: do not parse a truncated possible CPU mask

A mask which does not fit the buffer lost its highest CPU ids, so the
CPU array length could be too small. Use the fallback instead.
---
 src/smp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smp.c b/src/smp.c
index a162c2b..2e6e354 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -237,6 +237,9 @@ static void update_possible_cpus_array_len_cache(void)
 	ret = get_possible_cpu_mask_from_sysfs((char *) &buf, RSEQ_CPUMASK_SIZE);
 	if (ret <= 0)
 		goto fallback;
+	/* The mask may be truncated if it fills the buffer. */
+	if (ret >= RSEQ_CPUMASK_SIZE)
+		goto fallback;
 
 	/* Parse the possible cpu mask, on failure fallback to sysconf. */
 	ret = get_max_cpuid_from_mask((char *) &buf, ret);
-- 
2.43.0


From fcc81a19af07088f5a3e6d6a346280aec80d18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 07/11] fix: register and unregister all threads with the same
 rseq length

The first thread to register used a 32 bytes length because rseq_size
was still 0, but then published the kernel feature size. With feature
sizes above 32 bytes, its unregistration used a different length, which
the kernel refuses, and the extra features were not part of its
registration.
---
 src/rseq.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..6b0bd19 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,17 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/* The rseq areas need to be at least 32 bytes. */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 5ed37fec82686715583eb030f94423a49ac60784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 08/11] fix: rseq_smp_mb does not assemble on x86-32

---
 include/rseq/arch/x86.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..22424c6 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
-#define rseq_smp_mb()	\
+#ifdef RSEQ_ARCH_AMD64
+# define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+# define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0


From e88eb83c3ef509a79179a7e83a8173c8d89d2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:04 +0000
Subject: [PATCH 09/11] fix: answer the libc availability query before init and
 after exit

Before the constructor has run, and after the destructor has run,
rseq_size is -1U and rseq_ownership is 0, which made
rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) return true even when the C
library does not register rseq.
---
 src/rseq.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rseq.c b/src/rseq.c
index 6b0bd19..5e04563 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -105,7 +105,10 @@ bool rseq_available(unsigned int query)
 		}
 		break;
 	case RSEQ_AVAILABLE_QUERY_LIBC:
-		if (rseq_size && !rseq_ownership)
+		/* May be queried before the constructor has run. */
+		rseq_init();
+		/* The size is negative after the destructor has run. */
+		if ((int) rseq_size > 0 && !rseq_ownership)
 			return true;
 		break;
 	default:
-- 
2.43.0


From c7ca962f6ab546001b317eb53c14f75e6b9bc12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:38 +0000
Subject: [PATCH 10/11] fix: evaluate macro arguments of the per-CPU pointer
 helpers as a whole

rseq_percpu_ptr() cast only the first operand of a stride expression and
rseq_mempool_free() only the first operand of a pointer expression:
rseq_percpu_ptr(p, cpu, a + b) computed cpu * a + b, and
rseq_mempool_free(hdr_after - 1) freed the byte before hdr_after.
---
 include/rseq/mempool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rseq/mempool.h b/include/rseq/mempool.h
index b28d18f..67b12b3 100644
--- a/include/rseq/mempool.h
+++ b/include/rseq/mempool.h
@@ -257,7 +257,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
  * This API is MT-safe.
  */
 #define rseq_mempool_free(_ptr, _stride...)		\
-	librseq_mempool_percpu_free((void __rseq_percpu *) _ptr, RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
+	librseq_mempool_percpu_free((void __rseq_percpu *) (_ptr), RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
 
 /*
  * rseq_percpu_ptr: Offset a per-cpu pointer for a given CPU.
@@ -285,7 +285,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
 #define rseq_percpu_ptr(_ptr, _cpu, _stride...)		\
 	((__typeof__(*(_ptr)) *) ((uintptr_t) (_ptr) +	\
 		((unsigned int) (_cpu) *		\
-			(uintptr_t) RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))))
+			(uintptr_t) (RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE)))))
 
 /*
  * rseq_mempool_set_create: Create a pool set.
-- 
2.43.0


From a46d3c917a844909d9b6cd6f3b106bfadf0b8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:42 +0000
Subject: [PATCH 11/11] fix: detect robust pool free-list links into the middle
 of an item

A link changed to point inside an item was accepted by the check at pool
destruction: the word found there is usually zero and ends the list, so
the number of nodes still matched.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 05c0057..d4b94e9 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -493,7 +493,7 @@ bool percpu_addr_in_pool(const struct rseq_mempool *pool, void __rseq_percpu *_a
 
 	list_for_each_entry(range, &pool->range_list, node) {
 		if (addr >= range->base && addr < range->base + range->next_unused)
-			return true;
+			return !((uintptr_t) addr & (pool->item_len - 1));
 	}
 	return false;
 }
-- 
2.43.0

