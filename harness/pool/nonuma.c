/* Library built without NUMA support. */
#include <rseq/mempool.h>
#include <errno.h>
#include "hc.h"
int main(void)
{
	static char a[16384] __attribute__((aligned(4096)));
	for (int i = 0; i < 8; i++) {
		errno = 0;
		if (rseq_mempool_range_init_numa(a, (size_t)i * 4096, i & 3, i & 1 ? 2 : 4) != -1 || errno != ENOSYS)
			viol("C24", "without NUMA support the helper did not fail with ENOSYS (errno %d)", errno);
		stat_add("numa_calls", 1);
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
