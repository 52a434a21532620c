#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <stdint.h>
#include "cfg.h"
struct cfg vcfg;
__thread char fake_area[256] __attribute__((aligned(128), tls_model("initial-exec")));
ptrdiff_t __rseq_offset;
unsigned int __rseq_size, __rseq_flags;
static int ok;
int vcfg_set(void) { return ok; }
static __attribute__((constructor)) void fake_init(void)
{
	const char *e = getenv("VCFG");
	if (!e)
		return;
	if (sscanf(e, "%lu %d %u %u %lu %lu %d %d %d %d %d", &vcfg.seed, &vcfg.absent, &vcfg.libc_size, &vcfg.libc_flags, &vcfg.feat, &vcfg.align,
		   &vcfg.enosys, &vcfg.failk, &vcfg.failerr, &vcfg.threads, &vcfg.early) != 11)
		abort();
	ok = 1;
	__rseq_size = vcfg.libc_size;
	__rseq_flags = vcfg.libc_flags;
	__rseq_offset = fake_area - (char *)__builtin_thread_pointer();
}
