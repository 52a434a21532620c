/* One emulated world: what libc publishes, what the kernel supports. */
#ifndef CFG_H
#define CFG_H
struct cfg {
	unsigned long seed;
	int absent;		/* bit0 offset, bit1 size, bit2 flags symbol missing from libc */
	unsigned libc_size, libc_flags;
	unsigned long feat, align;	/* auxiliary vector, 0 = not provided */
	int enosys;		/* kernel without rseq */
	int failk, failerr;	/* the first attempts are refused */
	int threads;
	int early;		/* threads register before the library's constructor ran */
};
extern struct cfg vcfg;
extern __thread char fake_area[256];
int vcfg_set(void);
#endif
