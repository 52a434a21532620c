# --- x86-64 sequences (occurrence index counts textual occurrences in the file)
m('s-rbx-clobber', 'C05', BI, ': "memory", "cc", "rax", "rbx"\n', ': "memory", "cc", "rax"\n', 0)
m('s-rcx-clobber', 'C05', BI, '"rax", "rbx", "rcx"', '"rax", "rbx"', 0)
m('s-rax-clobber', 'C05', BI, ': "memory", "cc", "rax"\n', ': "memory", "cc"\n', 0)
m('s-rax-clobber-add', 'C05', BI, ': "memory", "cc", "rax"\n', ': "memory", "cc"\n', 1)
m('s-mem-clobber-ss', 'C02 C05', BI, ': "memory", "cc", "rax"\n', ': "cc", "rax"\n', 3)
m('s-mem-clobber-add', 'C02 C05', BI, ': "memory", "cc", "rax"\n', ': "cc", "rax"\n', 1)
m('s-mem-clobber-memcpy', 'C02 C05', BI, ': "memory", "cc", "rax", "rbx"\n', ': "cc", "rax", "rbx"\n', 1)
m('s-cmpl-cbne', 'C02', BI, '"cmpq %[v], %[expect]\\n\\t"', '"cmpl %[v], %k[expect]\\n\\t"', 0)
m('s-cmpl-cbne-mc', 'C02', BI, '"cmpq %[v], %[expect]\\n\\t"\n\t\t"jne %l[ne]', '"cmpl %[v], %k[expect]\\n\\t"\n\t\t"jne %l[ne]', 3)
m('s-commit-early', 'C01 C04', BI, '"movq %[newv], %[v]\\n\\t"\n\t\t"2:\\n\\t"', '"2:\\n\\t"\n\t\t"movq %[newv], %[v]\\n\\t"', 0)
m('s-commit-early-add', 'C01 C04', BI, '"addq %[count], %[v]\\n\\t"\n\t\t"2:\\n\\t"', '"2:\\n\\t"\n\t\t"addq %[count], %[v]\\n\\t"', 0)
m('s-commit-late', 'C01 C04', BI, '"movq %[newv], %[v]\\n\\t"\n\t\t"2:\\n\\t"', '"movq %[newv], %[v]\\n\\t"\n\t\t"nop\\n\\t"\n\t\t"2:\\n\\t"', 1)
m('s-two-stores', 'C04', BI, '"movq %[newv], %[v]\\n\\t"', '"movl %k[newv], %[v]\\n\\t"\n\t\t"movq %[newv], %[v]\\n\\t"', 0)
m('s-speculative-first', 'C01 C04', BI, '"movq %[newv2], %[v2]\\n\\t"\n\t\tRSEQ_INJECT_ASM(5)\n\t\t/* final store */\n\t\t"movq %[newv], %[v]\\n\\t"', '"movq %[newv], %[v]\\n\\t"\n\t\t"movq %[newv2], %[v2]\\n\\t"', 0)
m('s-load-before-cmp', 'C02 C05', BI, '"movq %%rbx, %[load]\\n\\t"\n\t\t"addq', '"addq', 0)
m('s-cbeq-load-early', 'C02 C05', BI, '"movq %[v], %%rbx\\n\\t"\n\t\t"cmpq %%rbx, %[expectnot]', '"movq %[v], %%rbx\\n\\t"\n\t\t"movq %%rbx, %[load]\\n\\t"\n\t\t"cmpq %%rbx, %[expectnot]', 0)
m('s-swap-v2-first', 'C02 C05 C01', BI, '"cmpq %[v2], %[expect2]\\n\\t"\n\t\t"jne %l[ne]', '"cmpq %[v2], %[expect2]\\n\\t"\n\t\t"je 55f\\n\\tmovq %[v2], %%rax\\n\\tjmp %l[ne]\\n\\t55:', 0)
m('s-memcpy-zero-len', 'C02 C05', BI, '"test %[len], %[len]\\n\\t"\n\t\t"je 333f\\n\\t"\n\t\t"xorl', '"xorl', 0)
m('s-memcpy-len32', 'C02', BI, '"cmpq %[len], %%rbx\\n\\t"', '"cmpl %k[len], %%ebx\\n\\t"', 0)
m('s-memcpy-len8', 'C02', BI, '"cmpq %[len], %%rbx\\n\\t"', '"cmpb %b[len], %%bl\\n\\t"', 0)
m('s-memcpy-src-word', 'C05', BI, '"movb (%[src],%%rbx), %%al\\n\\t"', '"movzwl (%[src],%%rbx), %%eax\\n\\t"', 0)
m('s-er-to-ir', 'C02', BI, '[count]\t\t"er" (count)', '[count]\t\t"ir" (count)', 0)
m('s-count32', 'C02', BI, '[count]\t\t"er" (count)', '[count]\t\t"er" ((long)(int)count)', 0)
m('s-off32', 'C02', BI, '[off]\t\t\t"er" (off)', '[off]\t\t\t"er" ((long)(int)off)', 0)
m('s-voffp-unsigned', 'C02', BI, '[voffp]\t\t"er" (voffp)', '[voffp]\t\t"er" ((long)(unsigned int)voffp)', 0)
m('s-rbx-shared-operand', 'C02', BI, '"movq %[ptr], %%rbx\\n\\t"\n\t\t"addq %[off], %%rbx', '"movq %[ptr], %%rbx\\n\\t"\n\t\t"subq %[off], %%rbx', 0)
m('s-abort-before-cpu', 'C03', X8, '"jnz " __rseq_str(label)', '"ja " __rseq_str(label)', 0)
m('s-cpu-signed', 'C03', X8, '"jnz " __rseq_str(label)', '"jl " __rseq_str(label)', 0)
m('s-cpu-word', 'C03', X8, '"cmpl %[" __rseq_str(cpu_id) "], "', '"cmpw %w[" __rseq_str(cpu_id) "], "', 0)
m('s-mmcid-offset', 'C03 C02', 'include/rseq/arch/templates/bits.h', '# define RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET	RSEQ_ASM_MM_CID_OFFSET', '# define RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET	RSEQ_ASM_CPU_ID_OFFSET')
m('s-cpuid-start', 'C03', 'include/rseq/arch/templates/bits.h', 'RSEQ_ASM_CPU_ID_OFFSET', 'RSEQ_ASM_CPU_ID_OFFSET-4')
m('s-arm-late', 'C01 C06', X8, '"movq %%rax, " __rseq_str(rseq_cs) "\\n\\t"		\\\n\t\t__rseq_str(label) ":\\n\\t"', '__rseq_str(label) ":\\n\\t"\t\t\\\n\t\t"movq %%rax, " __rseq_str(rseq_cs) "\\n\\t"', 0)
m('s-start-late', 'C01 C06', X8, '__rseq_str(label) ":\\n\\t"\n#else', '"nop\\n\\t" __rseq_str(label) ":\\n\\t"\n#else', 0)
m('s-sig-missing', 'C06', X8, '".long " __rseq_str(RSEQ_SIG) "\\n\\t"', '".long " __rseq_str(RSEQ_SIG) "+1\\n\\t"', 0)
m('s-sig-gap', 'C06', X8, '__rseq_str(label) ":\\n\\t"				\\\n\t\tteardown						\\\n\t\t"jmp %l[" __rseq_str(abort_label)', '"nop\\n\\t" __rseq_str(label) ":\\n\\t"				\\\n\t\tteardown						\\\n\t\t"jmp %l[" __rseq_str(abort_label)', 0)
m('s-exit-missing', 'C06', BI, 'RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])\n', '', 0)
m('s-exit-missing-eq', 'C06', BI, 'RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[eq])\n', '', 0)
m('s-exit-twice', 'C06', BI, 'RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])\n', '', 1)
m('s-exit-start', 'C06', GC, 'RSEQ_ASM_U64_PTR(__rseq_str(start_ip)) "\\n\\t"		\\\n\t\tRSEQ_ASM_U64_PTR(__rseq_str(exit_ip))', 'RSEQ_ASM_U64_PTR(__rseq_str(exit_ip)) "\\n\\t"		\\\n\t\tRSEQ_ASM_U64_PTR(__rseq_str(start_ip))', 0)
m('s-balign', 'C06', GC, '".balign 32\\n\\t"', '".balign 8\\n\\t"', 0)
m('s-flags', 'C06', GC, '__RSEQ_ASM_DEFINE_TABLE(label, 0x0, 0x0, start_ip,', '__RSEQ_ASM_DEFINE_TABLE(label, 0x0, 0x1, start_ip,', 0)
m('s-ptr-array', 'C06', GC, '".pushsection __rseq_cs_ptr_array, \\"aw\\"\\n\\t"		\\\n\t\tRSEQ_ASM_U64_PTR(__rseq_str(label) "b") "\\n\\t"		\\\n\t\t".popsection\\n\\t"', '""', 0)
m('s-unload', 'C06', RH, 'RSEQ_WRITE_ONCE(rseq_get_abi()->rseq_cs.arch.ptr, 0);', '(void) rseq_get_abi();', 0)
m('s-unload-half', 'C06', RH, 'RSEQ_WRITE_ONCE(rseq_get_abi()->rseq_cs.arch.ptr, 0);', 'RSEQ_WRITE_ONCE(*(uint32_t *)&rseq_get_abi()->rseq_cs.arch.ptr, 0);', 0)
m('s-disp-mmcid', 'C03 C02', RH, 'return rseq_load_add_store__ptr_relaxed_mm_cid(v, count, cpu);', 'return rseq_load_add_store__ptr_relaxed_cpu_id(v, count, cpu);', 0)
m('s-disp-rel-mmcid', 'C03', RH, 'return rseq_load_cbne_store_store__ptr_release_mm_cid(v, expect, v2, newv2, newv, cpu);', 'return rseq_load_cbne_store_store__ptr_release_cpu_id(v, expect, v2, newv2, newv, cpu);', 0)
m('s-disp-rel-args', 'C02', RH, 'return rseq_load_cbne_store_store__ptr_release_mm_cid(v, expect, v2, newv2, newv, cpu);', 'return rseq_load_cbne_store_store__ptr_release_mm_cid(v, expect, v2, newv, newv2, cpu);', 0)
m('s-disp-mo', 'C02', RH, 'case RSEQ_MO_SEQ_CST:	/* Fallthrough */\n	default:\n		return -1;', 'case RSEQ_MO_SEQ_CST:	/* Fallthrough */\n	default:\n		return 1;', 0)
m('s-disp-mo-ok', 'C02', RH, 'if (rseq_mo != RSEQ_MO_RELAXED)\n		return -1;', 'if (rseq_mo != RSEQ_MO_RELAXED && rseq_mo != RSEQ_MO_SEQ_CST)\n		return -1;', 2)
m('s-abort-ret', 'C01 C03', BI, 'RSEQ_INJECT_FAILED\n	return -1;', 'RSEQ_INJECT_FAILED\n	return 1;', 3)
m('s-ne-negative', 'C02', BI, 'ne:\n	rseq_after_asm_goto();\n	return 1;', 'ne:\n	rseq_after_asm_goto();\n	return -1;', 1)
m('s-abort-continues', 'C01', BI, 'RSEQ_ASM_DEFINE_ABORT(4, "", abort)', 'RSEQ_ASM_DEFINE_ABORT(4, "movq %[newv2], %[v2]\\n\\t", abort)', 5)
m('s-abort-clear-cs', 'C01', BI, '"jne %l[ne]\\n\\t"\n\t\tRSEQ_INJECT_ASM(4)', '"jne %l[ne]\\n\\t"\n\t\t"movq $0, %%fs:8(%[rseq_offset])\\n\\t"\n\t\tRSEQ_INJECT_ASM(4)', 0)
# --- pools
m('p-bitmap-count', 'C11 C15 C14', MP, '+ BIT_PER_ULONG - 1) / BIT_PER_ULONG', ') / BIT_PER_ULONG', -1)
m('p-bitmap-hw', 'C15', MP, 'for (size_t k = 0; k < count; ++k)\n\t\ttotal_leaks', 'for (size_t k = 0; k + 1 < count || !k; ++k)\n\t\ttotal_leaks', 0)
m('p-bitmap-mask32', 'C15', MP, 'mask = 1ULL << (item_index % BIT_PER_ULONG);', 'mask = 1U << (item_index % BIT_PER_ULONG);', -1)
m('p-fl-robust-init', 'C11 C12 C15', MP, 'if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n\t\t\tp += pool->attr.stride;\n', '', 0)
m('p-poison-cpu0', 'C12', MP, 'for (i = 0; i < pool->attr.max_nr_cpus; i++) {\n		char *p = __rseq_pool_range_percpu_ptr(range, i,\n				item_offset, pool->attr.stride);\n\n		/*\n		 * If the update propagated through a shared mapping,\n		 * or the item already has the correct content, skip\n		 * writing it into the cpu item to eliminate useless\n		 * COW of the page.\n		 *', 'for (i = 0; i < pool->attr.max_nr_cpus - (i > 1); i++) {\n		char *p = __rseq_pool_range_percpu_ptr(range, i,\n				item_offset, pool->attr.stride);\n\n		/*\n		 *', 0)
m('p-poison-firstword', 'C16', MP, 'if (rseq_cmp_item(p, pool->item_len, poison, NULL) == 0)', 'if (rseq_cmp_item(p, sizeof(uintptr_t), poison, NULL) == 0)', 0)
m('p-poison-half', 'C16', MP, 'rseq_poison_item(p, pool->item_len, poison);', 'rseq_poison_item(p, pool->item_len > 4096 ? 4096 : pool->item_len, poison);', 0)
m('p-poisoncheck-init', 'C15', MP, 'if (init_p)\n\t\trseq_check_poison_item', 'if (0)\n\t\trseq_check_poison_item', 0)
m('p-poisoncheck-last', 'C15', MP, 'for (item_offset = 0; item_offset < range->next_unused;', 'for (item_offset = 0; item_offset + pool->item_len < range->next_unused;', 0)
m('p-poisoncheck-cpu', 'C15', MP, 'rseq_check_poison_item(pool, item_offset, p, pool->item_len, poison);', 'rseq_check_poison_item(pool, item_offset, p, i ? pool->item_len : sizeof(uintptr_t), poison);', 0)
m('p-poisoncheck-firstrange', 'C15', MP, 'list_for_each_entry(range, &pool->range_list, node)\n\t\tcheck_range_poison(pool, range);', 'list_for_each_entry(range, &pool->range_list, node) {\n\t\tcheck_range_poison(pool, range);\n\t\tbreak;\n\t}', 0)
m('p-poisoncheck-alloc', 'C15', MP, '\t\trseq_percpu_check_poison_item(pool, range, item_offset);\n\t\taddr =', '\t\taddr =', 0)
m('p-cmp-32', 'C15 C16', MP, 'intptr_t v = *((intptr_t *) (p + offset));\n', 'intptr_t v = *((intptr_t *) (p + offset));\n\t\tif ((int) v == (int) cmp_value) continue;\n', 0)
m('p-next-unused', 'C14 C11', MP, 'range->next_unused + pool->item_len > pool->attr.stride', 'range->next_unused + pool->item_len >= pool->attr.stride', 0)
m('p-next-unused-over', 'C14 C11', MP, 'range->next_unused + pool->item_len > pool->attr.stride', 'range->next_unused > pool->attr.stride', 0)
m('p-nr-ranges', 'C14', MP, 'pool->nr_ranges >= pool->attr.max_nr_ranges', 'pool->nr_ranges > pool->attr.max_nr_ranges', 0)
m('p-nr-ranges-inc', 'C14 C23', MP, '\tpool->nr_ranges++;\n\treturn range;', '\treturn range;', 0)
m('p-nr-ranges-inc-early', 'C14', MP, '\tpage_size = rseq_get_page_len();\n\n\t/*\n\t * The header', '\tpool->nr_ranges += pool->attr.init_set; page_size = rseq_get_page_len();\n\n\t/*\n\t * The header', 0)
m('p-zero-init', 'C12', MP, 'if (init_p)\n\t\tbzero(init_p, pool->item_len);', '', 0)
m('p-zero-cmp', 'C12', MP, 'if (!rseq_cmp_item(p, pool->item_len, 0, NULL))\n\t\t\tcontinue;', 'if (!rseq_cmp_item(p, pool->item_len / 2 ? : 8, 0, NULL))\n\t\t\tcontinue;', 0)
m('p-init-cmp', 'C12', MP, 'if (!memcmp(init_ptr, p, init_len))', 'if (!strncmp(init_ptr, p, init_len))', 0)
m('p-init-cmp8', 'C12', MP, 'if (!memcmp(init_ptr, p, init_len))', 'if (!memcmp(init_ptr, p, init_len < 8 ? init_len : 8))', 0)
m('p-init-len', 'C12', MP, 'memcpy(init_p, init_ptr, init_len);', 'memcpy(init_p, init_ptr, init_len & ~7UL);', 0)
m('p-init-einval', 'C12 C20 C14', MP, 'if (init_len > pool->item_len) {', 'if (init_len > pool->attr.stride) {', 0)
m('p-init-einval-eq', 'C12 C20', MP, 'if (init_len > pool->item_len) {', 'if (init_len >= pool->item_len) {', 0)
m('p-head-lock', 'C21', MP, '\tpthread_mutex_lock(&pool->lock);\n\t/* Get first entry from free list. */\n\tnode = pool->free_list_head;', '\tnode = pool->free_list_head;\n\tpthread_mutex_lock(&pool->lock);', 0)
m('p-slot-unlocked', 'C21 C15', MP, '\tif (addr)\n\t\tset_alloc_slot(pool, range, item_offset);\n\tpthread_mutex_unlock(&pool->lock);', '\tpthread_mutex_unlock(&pool->lock);\n\tif (addr)\n\t\tset_alloc_slot(pool, range, item_offset);', 0)
m('p-clear-unlocked', 'C21 C15', MP, '\tpthread_mutex_lock(&pool->lock);\n\tclear_alloc_slot(pool, range, item_offset);', '\tclear_alloc_slot(pool, range, item_offset);\n\tpthread_mutex_lock(&pool->lock);', 0)
m('p-poison-unlocked', 'C21 C13', MP, '\tpool->free_list_head = item;\n\tpthread_mutex_unlock(&pool->lock);', '\tpool->free_list_head = item;\n\tpthread_mutex_unlock(&pool->lock);\n\tif (pool->attr.poison_set && pool->attr.robust_set)\n\t\trseq_percpu_poison_item(pool, range, item_offset);', 0)
m('p-poison-before-lock', 'C21 C16 C15', MP, '\tpthread_mutex_lock(&pool->lock);\n\tclear_alloc_slot(pool, range, item_offset);\n\t/* Add ptr to head of free list */\n\thead = pool->free_list_head;\n\tif (pool->attr.poison_set)\n\t\trseq_percpu_poison_item(pool, range, item_offset);', '\tif (pool->attr.poison_set)\n\t\trseq_percpu_poison_item(pool, range, item_offset);\n\tpthread_mutex_lock(&pool->lock);\n\tclear_alloc_slot(pool, range, item_offset);\n\thead = pool->free_list_head;', 0)
m('p-add-unlocked', 'C21', MP, '\tif (pool_set->entries[item_order]) {', '\tpthread_mutex_unlock(&pool_set->lock); pthread_mutex_lock(&pool_set->lock);\n\tif (pool_set->entries[item_order]) {', 0)
m('p-add-check-unlocked', 'C21 C19', MP, '\tpool_set->entries[pool->item_order] = pool;', '\tpthread_mutex_unlock(&pool_set->lock); pthread_mutex_lock(&pool_set->lock);\n\tpool_set->entries[pool->item_order] = pool;', 0)
m('p-set-nolock', 'C21', MP, 'again:\n\tpthread_mutex_lock(&pool_set->lock);', 'again:\n', 0)
m('p-set-order', 'C19', MP, 'min_order = order + 1;', 'min_order = order + 2;', 0)
m('p-set-noretry', 'C19', MP, 'if (addr == NULL && errno == ENOMEM) {', 'if (addr == NULL && errno == EINVAL) {', 0)
m('p-set-retry1', 'C19', MP, 'min_order = order + 1;\n\t\t\tgoto again;', 'if (min_order > order) return NULL;\n\t\t\tif (min_order == order && len < 4) return NULL;\n\t\t\tmin_order = order + 1;\n\t\t\tgoto again;', 0)
m('p-set-fits', 'C19', MP, 'if (pool->item_len >= len)', 'if (pool->item_len > len)', 0)
m('p-set-order-up', 'C19', MP, 'if (order > POOL_SET_MIN_ENTRY)\n\t\tmin_order = order;', 'if (order > POOL_SET_MIN_ENTRY)\n\t\tmin_order = order + 1;', 0)
m('p-set-busy', 'C19', MP, 'errno = EBUSY;\n\t\tret = -1;', 'errno = EBUSY;\n\t\tret = 0;', 0)
m('p-set-replace', 'C19', MP, 'errno = EBUSY;\n\t\tret = -1;\n\t\tgoto end;', 'errno = EBUSY;\n\t\tret = -1;', 0)
m('p-set-nr', 'C19', MP, 'for (order = min_order; order < POOL_SET_NR_ENTRIES; order++) {', 'for (order = min_order; order < 20; order++) {', 0)
m('p-setdestroy-nr', 'C17 C19', MP, 'for (order = POOL_SET_MIN_ENTRY; order < POOL_SET_NR_ENTRIES; order++) {', 'for (order = POOL_SET_MIN_ENTRY; order < 16; order++) {', 0)
m('p-setdestroy-min', 'C17 C19', MP, 'for (order = POOL_SET_MIN_ENTRY; order < POOL_SET_NR_ENTRIES; order++) {', 'for (order = POOL_SET_MIN_ENTRY + 1; order < POOL_SET_NR_ENTRIES; order++) {', 0)
m('p-wipe', 'C18', MP, 'madvise(header, page_size, MADV_WIPEONFORK)', '0', 0)
m('p-wipe-both', 'C18', MP, 'madvise(header, page_size, MADV_WIPEONFORK)', 'madvise(header, 2 * page_size, MADV_WIPEONFORK)', 0)
m('p-dontfork', 'C18', MP, 'madvise(base, range_len, MADV_DONTFORK)', '0', 0)
m('p-dontfork-cpus', 'C18', MP, 'madvise(base, range_len, MADV_DONTFORK)', 'madvise(base, pool->attr.stride * pool->attr.max_nr_cpus, MADV_DONTFORK)', 0)
m('p-dontfork-init', 'C18', MP, 'madvise(base, range_len, MADV_DONTFORK)', 'madvise(range->init, pool->attr.stride, MADV_DONTFORK)', 0)
m('p-child-munmap', 'C18', MP, 'return munmap(range->header, POOL_HEADER_NR_PAGES * rseq_get_page_len());', 'return munmap(range->mmap_addr, range->mmap_len);', 0)
m('p-child-bitmap', 'C18', MP, '\tdestroy_alloc_bitmap(pool, range);\n\tif (!mapping_accessible) {', '\tif (mapping_accessible)\n\t\tdestroy_alloc_bitmap(pool, range);\n\tif (!mapping_accessible) {', 0)
m('p-memfd-shared', 'C13 C12', MP, 'MAP_PRIVATE | MAP_FIXED,\n						memfd, 0)', '(cpu == 7 ? MAP_SHARED : MAP_PRIVATE) | MAP_FIXED,\n						memfd, 0)', 0)
m('p-memfd-leak', 'C17', MP, '\t\trseq_memfd_close(memfd);\n\t\tmemfd = -1;', '\t\tif (!pool->attr.robust_set) rseq_memfd_close(memfd);\n\t\tmemfd = -1;', 0)
m('p-memfd-leak-err', 'C17', MP, 'error_alloc:\n\trseq_memfd_close(memfd);', 'error_alloc:\n', 0)
m('p-ftruncate-leak', 'C17', MP, '\t\tif (close(fd))\n\t\t\tperror("close");\n\t\tfd = -1;', '\t\tfd = -1;', 0)
m('p-range-leak-err', 'C17', MP, '(void) rseq_mempool_range_destroy(pool, range, true);\n\treturn NULL;', 'destroy_alloc_bitmap(pool, range);\n\treturn NULL;', 0)
m('p-name-leak', 'C17', MP, '\tfree(pool->name);\n\tfree(pool);', '\tfree(pool);', 0)
m('p-strdup-leak', 'C17', MP, '\t\tif (!pool->name)\n\t\t\tgoto error_alloc;', '\t\tif (!pool->name) {\n\t\t\tfree(pool);\n\t\t\terrno = ENOMEM;\n\t\t\treturn NULL;\n\t\t}', 0)
m('p-bitmap-leak-child', 'C17 C18', MP, '\tfree(bitmap);\n\trange->alloc_bitmap = NULL;', '\trange->alloc_bitmap = NULL;', 0)
m('p-extra-after', 'C17 C14', MP, 'extra = (page_count - minimum_page_count) << page_order;', 'extra = (page_count - minimum_page_count - 1) << page_order; if (!extra) goto alloc_error;', 0)
m('p-mmaplen', 'C17', MP, 'range->mmap_len = header_len + range_len;', 'range->mmap_len = header_len + pool->attr.stride * pool->attr.max_nr_cpus + (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT ? pool->attr.stride : 0);', 0)
m('p-destroy-list', 'C17', MP, '\t\t\tlist_add(&range->node, &pool->range_list);\n\t\t\tret = -1;', '\t\t\tret = -1;', 0)
m('p-errno-create', 'C17 C20', MP, 'error_alloc:\n\trseq_mempool_destroy(pool);\n\terrno = ENOMEM;', 'error_alloc:\n\terrno = ENOMEM;\n\trseq_mempool_destroy(pool);', 0)
m('p-errno-range', 'C14', MP, '\tif (!range) {\n\t\terrno = ENOMEM;\n\t\taddr = NULL;', '\tif (!range) {\n\t\taddr = NULL;', 0)
m('p-cb-cpu', 'C23', MP, '\t\t\t\t\t\tpool->attr.stride, cpu)) {', '\t\t\t\t\t\tpool->attr.stride, cpu ? cpu : 0)) {', 0)
m('p-cb-len', 'C23', MP, '\t\t\t\t\t\tpool->attr.stride, cpu)) {', '\t\t\t\t\t\tpool->item_len > 4096 ? pool->item_len : pool->attr.stride, cpu)) {', 0)
m('p-cb-neg', 'C23', MP, 'base, pool->attr.stride, -1)) {', 'base, pool->attr.stride, 0)) {', 0)
m('p-cb-err', 'C23 C17', MP, '\t\t\t\t\t\tpool->attr.stride, cpu)) {', '\t\t\t\t\t\tpool->attr.stride, cpu) < 0) {', 0)
m('p-cb-firstrange', 'C23', MP, '\tif (pool->attr.init_set) {', '\tif (pool->attr.init_set && (!pool->nr_ranges || pool->nr_ranges < 3)) {', 0)
m('p-attr-init-policy', 'C20 C12', MP, '\tattr->populate_policy = RSEQ_MEMPOOL_POPULATE_COW_INIT;\n', '', 0)
m('p-attr-policy-unknown', 'C20', MP, '\tdefault:\n\t\terrno = EINVAL;\n\t\treturn NULL;', '\tdefault:\n\t\tattr.populate_policy = RSEQ_MEMPOOL_POPULATE_COW_ZERO;\n\t\tbreak;', 0)
m('p-attr-global-policy', 'C20', MP, '\t\tif (attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n\t\t\tattr.populate_policy = RSEQ_MEMPOOL_POPULATE_COW_ZERO;\n', '', 0)
m('p-attr-global-ncpu', 'C20', MP, '\t\tattr.max_nr_cpus = 1;\n', '\t\tif (!attr.max_nr_cpus) attr.max_nr_cpus = 2;\n', 0)
m('p-attr-neg-cpus', 'C20', MP, 'if (attr.max_nr_cpus < 0) {', 'if (attr.max_nr_cpus < -1) {', 0)
m('p-attr-stride-page', 'C20', MP, 'attr.stride < (size_t) rseq_get_page_len()', 'attr.stride < 1024', 0)
m('p-attr-stride-item', 'C20 C14', MP, 'if (item_len > attr.stride || attr', 'if (item_len >= attr.stride || attr', 0)
m('p-attr-nonpow2', 'C20', MP, '\t\t\t!is_pow2(attr.stride)) {\n\t\terrno', '\t\t\t(attr.stride & 4095)) {\n\t\terrno', 0)
m('p-attr-getmax', 'C20', MP, '!mempool || mempool->attr.type != MEMPOOL_TYPE_PERCPU', '!mempool', 0)
m('p-attr-percpu-type', 'C20', MP, '\tattr->type = MEMPOOL_TYPE_PERCPU;\n', '', 0)
m('p-attr-poison-robust', 'C15 C16', MP, 'attr.robust_set && !attr.poison_set', 'attr.robust_set', 0)
m('p-order-eq', 'C20 C14 C11', UT, 'return rseq_fls_ulong(x - 1);', 'return rseq_fls_ulong(x);', 0)
m('p-fls16', 'C20 C11 C19', UT, 'x <<= 4;\n\t\tr -= 4;', 'x <<= 4;\n\t\tr -= 3;', 0)
m('p-align-off', 'C11 C17', UT, 'return (alignment - p) & (alignment - 1);', 'return alignment - (p & (alignment - 1));', 0)
m('p-offalign-int', 'C11 C17 C20', UT, 'off_t offset_align(uintptr_t p, size_t alignment)', 'int offset_align(uintptr_t p, size_t alignment)', 0)
m('p-cow-skip-zero', 'C22', MP, '\t\tif (!rseq_cmp_item(p, pool->item_len, 0, NULL))\n\t\t\tcontinue;\n', '', 0)
m('p-cow-skip-init', 'C22', MP, '\t\tif (!memcmp(init_ptr, p, init_len))\n\t\t\tcontinue;\n', '', 0)
m('p-cow-skip-poison', 'C22', MP, '\t\tif (rseq_cmp_item(p, pool->item_len, poison, NULL) == 0)\n\t\t\tcontinue;\n', '', 0)
m('p-cow-populate', 'C22', MP, 'MAP_PRIVATE | MAP_FIXED,\n						memfd, 0)', 'MAP_PRIVATE | MAP_FIXED | MAP_POPULATE,\n						memfd, 0)', 0)
m('p-cow-populate-anon', 'C22', MP, 'MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);', 'MAP_ANONYMOUS | MAP_PRIVATE | (len > (1UL << 20) ? MAP_POPULATE : 0), -1, 0);', 0)
m('p-cow-zero-order', 'C22', MP, '\tinit_p = __rseq_pool_range_init_ptr(range, item_offset);\n\tif (init_p)\n\t\tbzero(init_p, pool->item_len);\n\tfor (i = 0; i < pool->attr.max_nr_cpus; i++) {', '\tfor (i = pool->attr.max_nr_cpus - 1; i >= 0; i--) {', 0)
m('p-freelist-zero-cpu', 'C12 C13 C16', MP, '\t} else {\n\t\t/* COW_INIT free list is in init values */\n\t\tif (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n\t\t\tp += pool->attr.max_nr_cpus * pool->attr.stride;\n\t}\n\treturn (struct', '\t} else {\n\t\tif (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n\t\t\tp += (pool->attr.max_nr_cpus * pool->attr.stride);\n\t}\n\treturn (struct', 0)
m('p-int-mul', 'C11 C13', MP, '\treturn range->base + (stride * cpu) + item_offset;', '\treturn range->base + (uint32_t) (stride * cpu) + item_offset;', 0)
m('p-int-mul2', 'C11 C13 C14', MP, '\trange_len = pool->attr.stride * pool->attr.max_nr_cpus;', '\trange_len = (unsigned int) (pool->attr.stride * pool->attr.max_nr_cpus);', 0)
m('p-freelist-leak', 'C14 C15', MP, '\t\tpool->free_list_head = node->next;', '\t\tpool->free_list_head = (range == list_first_entry(&pool->range_list, struct rseq_mempool_range, node)) ? node->next : (node->next && ((uintptr_t) node->next & 0xff8) == 0x7f8) ? node->next->next : node->next;', 0)
m('n-batch', 'C24', MP, 'pages[k] = addr + (page * page_len);', 'pages[k] = addr + (k * page_len);', 0)
m('n-nodes', 'C24', MP, 'for (size_t k = 1; k < RSEQ_ARRAY_SIZE(nodes); ++k) {', 'for (size_t k = 1; k < RSEQ_ARRAY_SIZE(nodes) - 1; ++k) {', 0)
m('n-left', 'C24', MP, 'if (left < max_k) {', 'if (left + 1 < max_k) {', 0)
m('n-status', 'C24', MP, 'if (ret < 0)\n\t\t\treturn ret;', 'if (ret)\n\t\t\treturn ret;', 0)
m('n-flags0', 'C24', MP, 'if (!numa_flags) {', 'if (0) {', 0)
m('n-node-neg', 'C24', MP, 'if (nodes[0] < 0)\n\t\treturn -1;', '', 0)
m('n-round', 'C24', MP, 'nr_pages = len >> rseq_get_count_order_ulong(page_len);', 'nr_pages = (len + page_len - 1) >> rseq_get_count_order_ulong(page_len);', 0)
# --- registration
m('r-size-alloc', 'C08', RS, 'RSEQ_WRITE_ONCE(rseq_size, get_rseq_kernel_feature_size());', 'RSEQ_WRITE_ONCE(rseq_size, get_rseq_min_alloc_size());', 0)
m('r-own-or', 'C07 C08', RS, 'if (libc_rseq_size_p && libc_rseq_offset_p && libc_rseq_flags_p &&\n			*libc_rseq_size_p != 0) {', 'if (libc_rseq_size_p && libc_rseq_offset_p && libc_rseq_flags_p) {', 0)
m('r-libc32', 'C08', RS, 'case ORIG_RSEQ_FEATURE_SIZE:	/* Fallthrough. */\n', '', 0)
m('r-libcmax', 'C08', RS, 'rseq_size = ORIG_RSEQ_ALLOC_SIZE;\n			break;', 'rseq_size = rseq_kernel_feature_size;\n			break;', 0)
m('r-libcdefault', 'C08', RS, 'rseq_size = libc_rseq_size;\n			break;', 'rseq_size = get_rseq_kernel_feature_size();\n			break;', 0)
m('r-flags', 'C08', RS, 'rseq_flags = *libc_rseq_flags_p;', 'rseq_flags = 0;', 0)
m('r-unreg-flag', 'C07', RS, 'RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);\n	if (rc)\n		return -1;', 'RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);\n	if (rc && errno != EPERM)\n		return -1;', 0)
m('r-unreg-len', 'C07', RS, 'sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER', 'sys_rseq(&__rseq_abi, ORIG_RSEQ_ALLOC_SIZE, RSEQ_ABI_FLAG_UNREGISTER', 0)
m('r-sig', 'C07', RS, 'get_rseq_min_alloc_size(), 0, RSEQ_SIG);', 'get_rseq_min_alloc_size(), 0, 0x53053052);', 0)
m('r-reg-abort', 'C07', RS, '\t\tif (RSEQ_READ_ONCE(rseq_size) > 0) {\n', '\t\tif (RSEQ_READ_ONCE(rseq_size) >= 0) {\n', 0)
m('r-reg-nolibc', 'C07', RS, '	if (!rseq_ownership) {\n		/* Treat libc\'s ownership as a successful registration. */\n		return 0;', '	if (!rseq_ownership) {\n		return -1;', 0)
m('r-lazy', 'C07 C08', RS, '	rseq_init();\n\n	if (!rseq_ownership) {', '	if (!rseq_ownership) {', 0)
m('r-initdone-early', 'C07 C08', RS, '	if (init_done)\n		goto unlock;\n', '	if (init_done)\n		goto unlock;\n	rseq_smp_store_release(&init_done, 1);\n', 0)
m('r-exit-size', 'C08', RS, '	rseq_size = -1U;\n	rseq_ownership = 0;', '	rseq_ownership = 0;', 0)
m('r-exit-always', 'C08', RS, '	if (!rseq_ownership)\n		return;\n	rseq_offset = 0;', '	rseq_offset = 0;', 0)
m('r-avail-kernel', 'C08', RS, 'case ENOSYS:\n			break;\n		case EINVAL:\n			return true;', 'case ENOSYS:\n			break;\n		case EINVAL:\n			return rseq_size != 0;', 0)
m('r-align', 'C07', RS, 'aligned(RSEQ_THREAD_AREA_ALLOC_SIZE)))', 'aligned(32)))', 0)
m('r-uninit', 'C09', RS, '	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,\n', '', 0)
m('r-fallback-node', 'C09', RS, 'return (int32_t) node_id;', 'return (int32_t) cpu_id;', 0)
m('r-node-pred', 'C08', RH, '(int) rseq_size >= (int) rseq_offsetofend(struct rseq_abi, node_id)', '(int) rseq_size > (int) rseq_offsetofend(struct rseq_abi, node_id)', 0)
m('r-mmcid-pred', 'C08', RH, '(int) rseq_size >= (int) rseq_offsetofend(struct rseq_abi, mm_cid)', 'rseq_size >= rseq_offsetofend(struct rseq_abi, mm_cid)', 0)
m('r-mmcid-pred2', 'C08', RH, '(int) rseq_size >= (int) rseq_offsetofend(struct rseq_abi, mm_cid)', '(int) rseq_size >= (int) offsetof(struct rseq_abi, mm_cid)', 0)
m('r-cpu-neg', 'C09', RH, 'if (rseq_unlikely(cpu < 0))', 'if (rseq_unlikely(cpu == -1))', 0)
m('r-cpustart', 'C09', RH, 'return RSEQ_READ_ONCE(rseq_get_abi()->cpu_id_start);', 'return RSEQ_READ_ONCE(rseq_get_abi()->cpu_id);', 0)
m('r-mmcid-read', 'C09', RH, 'return RSEQ_READ_ONCE(rseq_get_abi()->mm_cid);', 'return RSEQ_READ_ONCE(rseq_get_abi()->node_id);', 0)
# --- CPU discovery
m('d-eintr', 'C10', SM, 'if (errno == EINTR) {\n				continue;', 'if (errno == EINTR) {\n				break;', 0)
m('d-single-read', 'C10', SM, 'while (max_bytes > total_bytes_read && bytes_read != 0);', 'while (0);', 0)
m('d-comma', 'C10', SM, "(pmask[i] == ',') || (pmask[i] == '-')", "(pmask[i] == '-')", 0)
m('d-dash', 'C10', SM, "(pmask[i] == ',') || (pmask[i] == '-')", "(pmask[i] == ',')", 0)
m('d-max', 'C10', SM, '__max(sysconf(_SC_NPROCESSORS_CONF), get_max_cpuid_from_sysfs() + 1)', '__max(sysconf(_SC_NPROCESSORS_CONF), get_max_cpuid_from_sysfs())', 0)
m('d-max2', 'C10', SM, 'if (cpu_id > max_cpuid)\n					max_cpuid = cpu_id;', 'max_cpuid = cpu_id;', 0)
m('d-endptr', 'C10', SM, "\n					&& (*endptr == '\\0')) {", ') {', 0)
m('d-dir', 'C10', SM, 'entry->d_type == DT_DIR &&', '', 0)
m('d-cache-neg', 'C10', SM, 'if (ret < 1)\n		return;', '', 0)
m('d-plus', 'C10', SM, '		ret++;\n', '		ret += !!ret;\n', 0)
m('d-fdleak', 'C10', SM, 'if (fd >= 0 && close(fd) < 0)', 'if (fd >= 0 && ret < 0 && close(fd) < 0)', 0)
m('d-dirleak', 'C10', SM, 'if (closedir(cpudir))', 'if (max_cpuid < 0 && closedir(cpudir))', 0)
m('d-strtol-base', 'C10', SM, 'cpu_index = strtoul(&pmask[i], &endptr, 10);', 'cpu_index = strtoul(&pmask[i], &endptr, 0);', 0)
# --- third round
m('q-fresh-zero', 'C12', MP, '	struct rseq_mempool_range *range;\n	struct free_list_node *node;\n	uintptr_t item_offset;', '	struct rseq_mempool_range *range;\n	struct free_list_node *node;\n	uintptr_t item_offset;\n	if (zeroed && !pool->free_list_head && !pool->attr.robust_set) zeroed = false;', 0)
m('q-list-tail', 'C14', MP, '	/* Add range to head of list. */\n	list_add(', '	/* Add range to head of list. */\n	list_add_tail(', 0)
m('q-inpool-stride', 'C15', MP, 'range->base + range->next_unused)', 'range->base + pool->attr.stride)', 0)
m('q-inpool-align', 'C15', MP, 'return !((uintptr_t) addr & (pool->item_len - 1));', 'return true;', 0)
m('q-inpool-base', 'C15', MP, 'if (addr >= range->base && addr < range->base + range->next_unused)', 'if (addr > range->base && addr < range->base + range->next_unused)', 0)
m('q-child-first', 'C18', MP, 'return munmap(range->header, POOL_HEADER_NR_PAGES * rseq_get_page_len());', 'return munmap(range->header, rseq_get_page_len());', 0)
m('q-memcmp-len', 'C12', MP, 'if (!memcmp(init_ptr, p, init_len))', 'if (!strncmp(init_ptr, p, init_len))', 0)
m('q-init-shared', 'C22 C12', MP, 'MAP_SHARED | MAP_FIXED, memfd, 0) != (void *) range->init', 'MAP_PRIVATE | MAP_FIXED, memfd, 0) != (void *) range->init', 0)
m('q-robust-freelist-len', 'C11 C16', MP, '	if (pool->attr.robust_set)\n		range_len += pool->attr.stride;', '	if (pool->attr.robust_set && pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n		range_len += pool->attr.stride;', 0)
m('q-cloexec', 'C17 C18', MP, 'MFD_CLOEXEC', '0', 0)
m('q-errno-init', 'C20 C12', MP, '	if (init_len > pool->item_len) {\n		errno = EINVAL;', '	if (init_len > pool->item_len) {\n		errno = ENOMEM;', 0)
m('q-getmax-attr', 'C20', MP, 'return mempool->attr.max_nr_cpus;', 'return mempool->attr.max_nr_cpus & 0xff;', 0)
m('q-item-min', 'C11 C20', MP, 'if (item_len < sizeof(void *))\n		item_len = sizeof(void *);', 'if (item_len < sizeof(int))\n		item_len = sizeof(int);', 0)
m('q-check-max', 'C15', MP, '	if (total_never_allocated + total_freed != total_item) {', '	if (total_never_allocated + total_freed > total_item) {', 0)
m('q-check-cycle', 'C15', MP, '	if (total_never_allocated + total_freed != total_item) {', '	if (total_never_allocated + total_freed < total_item) {', 0)
m('q-numa-first', 'C24', MP, 'pages[k] = addr + (page * page_len);', 'pages[k] = addr + (k * page_len);', 0)
m('q-numa-ret', 'C24', MP, '		if (ret < 0)\n			return ret;\n\n		if (ret > 0) {', '		if (ret) {', 0)
m('q-name-create', 'C17', MP, '		pool->name = strdup(pool_name);\n		if (!pool->name)\n			goto error_alloc;', '		pool->name = strdup(pool_name);', 0)
m('q-alloc-fail-unlock', 'C17', MP, '		errno = ENOMEM;\n		addr = NULL;\n		goto end;', '		errno = ENOMEM;\n		return NULL;', 0)
m('q-cb-skip-ext', 'C23', MP, '	if (pool->attr.init_set) {\n		switch', '	if (pool->attr.init_set && pool->nr_ranges < 2) {\n		switch', 0)
m('q-cb-order', 'C23', MP, 'for (cpu = 0; cpu < pool->attr.max_nr_cpus; cpu++) {\n				if (pool->attr.init_func', 'for (cpu = pool->attr.max_nr_cpus - 1; cpu >= 0; cpu--) {\n				if (pool->attr.init_func', 0)
m('q-set-errno', 'C19', MP, 'if (addr == NULL && errno == ENOMEM) {', 'if (addr == NULL && errno == EAGAIN) {', 0)
m('q-set-again-order', 'C19', MP, '			min_order = order + 1;', '			min_order = min_order + 1;', 0)
m('s-ptr-early', 'C01 C04 C02', BI, '[ptr]			"m" (*ptr),', '[ptr]			"r" (*ptr),', 0)
m('w-nr8', 'C14', MP, '	unsigned long nr_ranges;', '	unsigned char nr_ranges;', 0)
m('w-max8', 'C14 C20', MP, '	unsigned long max_nr_ranges;', '	unsigned char max_nr_ranges;', 0)
m('w-max16', 'C14 C20', MP, '	unsigned long max_nr_ranges;', '	unsigned short max_nr_ranges;', 0)
m('w-max32', 'C14 C20', MP, '	unsigned long max_nr_ranges;', '	unsigned int max_nr_ranges;', 0)
m('w-next32', 'C11 C14 C20', MP, '	size_t next_unused;', '	unsigned int next_unused;', 0)
m('w-item32', 'C11 C20', MP, '	size_t item_len;\n	int item_order;', '	unsigned int item_len;\n	int item_order;', 0)
m('w-stride32', 'C11 C20', MP, '	size_t stride;\n	int max_nr_cpus;', '	unsigned int stride;\n	int max_nr_cpus;', 0)
m('w-cpus16', 'C11 C20', MP, '	size_t stride;\n	int max_nr_cpus;', '	size_t stride;\n	unsigned short max_nr_cpus;', 0)
m('w-poison32', 'C15 C16', MP, '	uintptr_t poison;\n', '	unsigned int poison;\n', 0)
m('w-mmaplen32', 'C17', MP, '	size_t mmap_len;\n', '	unsigned int mmap_len;\n', 0)
m('w-off-ptr', 'C11 C12', MP, 'int cpu,\n		uintptr_t item_offset, size_t stride)', 'int cpu,\n		unsigned int item_offset, size_t stride)', 0)
m('w-off-initp', 'C12', MP, 'struct rseq_mempool_range *range,\n		uintptr_t item_offset)\n{\n	if (!range->init)', 'struct rseq_mempool_range *range,\n		unsigned int item_offset)\n{\n	if (!range->init)', 0)
m('w-off-init', 'C12', MP, 'uintptr_t item_offset,\n		void *init_ptr, size_t init_len)', 'unsigned int item_offset,\n		void *init_ptr, size_t init_len)', 0)
m('w-name-buf', 'C14', MP, 'char buf[249];', 'char buf[512];', 0)
m('w-name-fmt', 'C20', MP, 'snprintf(buf, sizeof(buf), "%s:rseq-mempool", poolname);', 'snprintf(buf, sizeof(buf), poolname);', 0)
m('w-name-keep', 'C20', MP, 'pool->name = strdup(pool_name);', 'pool->name = (char *) pool_name;', 0)
m('w-attr-write', 'C20 C16', MP, '			attr.poison = DEFAULT_COW_ZERO_POISON_VALUE;\n	}', '			attr.poison = DEFAULT_COW_ZERO_POISON_VALUE;\n		if (_attr)\n			memcpy((void *) _attr, &attr, sizeof(attr));\n	}', 0)
# lock regions (fourth round)
m('v-create-unlocked', 'C21 C14', MP, 'create_range:\n	range = rseq_mempool_range_create(pool);\n', 'create_range:\n	pthread_mutex_unlock(&pool->lock);\n	range = rseq_mempool_range_create(pool);\n	pthread_mutex_lock(&pool->lock);\n', 0)
m('v-pop-early', 'C21', MP, '	pthread_mutex_lock(&pool->lock);\n	/* Get first entry from free list. */\n	node = pool->free_list_head;\n', '	/* Get first entry from free list. */\n	node = pool->free_list_head;\n	pthread_mutex_lock(&pool->lock);\n', 0)
m('v-head-early', 'C21', MP, '	pthread_mutex_lock(&pool->lock);\n	clear_alloc_slot(pool, range, item_offset);\n	/* Add ptr to head of free list */\n	head = pool->free_list_head;\n', '	/* Add ptr to head of free list */\n	head = pool->free_list_head;\n	pthread_mutex_lock(&pool->lock);\n	clear_alloc_slot(pool, range, item_offset);\n', 0)
m('v-publish-late', 'C21', MP, '	item->next = head;\n	pool->free_list_head = item;\n	pthread_mutex_unlock(&pool->lock);', '	item->next = head;\n	pthread_mutex_unlock(&pool->lock);\n	pool->free_list_head = item;', 0)
m('v-next-late', 'C21', MP, '	item->next = head;\n	pool->free_list_head = item;\n	pthread_mutex_unlock(&pool->lock);', '	pool->free_list_head = item;\n	pthread_mutex_unlock(&pool->lock);\n	item->next = head;', 0)
m('v-room-early', 'C21 C11', MP, '	pthread_mutex_lock(&pool->lock);\n	/* Get first', '	if (!pool->free_list_head && !list_empty(&pool->range_list)) {\n		range = list_first_entry(&pool->range_list, struct rseq_mempool_range, node);\n		if (range->next_unused + pool->item_len <= pool->attr.stride) {\n			pthread_mutex_lock(&pool->lock);\n			goto room_left;\n		}\n	}\n	pthread_mutex_lock(&pool->lock);\n	/* Get first', 0)
m('v-trylock', 'C21', MP, '	pthread_mutex_lock(&pool->lock);\n	/* Get first', '	if (pthread_mutex_trylock(&pool->lock)) {\n		errno = ENOMEM;\n		return NULL;\n	}\n	/* Get first', 0)
m('v-poison-after', 'C21 C16', MP, '	if (pool->attr.poison_set)\n		rseq_percpu_poison_item(pool, range, item_offset);\n	item = ', '	item = ', 0)
m('v-init-static', 'C21 C12', MP, '	char *init_p = NULL;\n	int i;\n\n	init_p = __rseq_pool_range_init_ptr(range, item_offset);\n	if (init_p)\n		memcpy(', '	static char *init_p;\n	static int i;\n\n	init_p = __rseq_pool_range_init_ptr(range, item_offset);\n	if (init_p)\n		memcpy(', 0)
m('v-set-trylock', 'C21 C19', MP, 'again:\n	pthread_mutex_lock(&pool_set->lock);', 'again:\n	if (pthread_mutex_trylock(&pool_set->lock)) {\n		errno = ENOMEM;\n		return NULL;\n	}', 0)
m('v-init-trylock', 'C07 C08', 'src/rseq.c', '	pthread_mutex_lock(&init_lock);\n', '	if (pthread_mutex_trylock(&init_lock))\n		return;\n', 0)
# ordering and access primitives
CH = 'include/rseq/compiler.h'
XH = 'include/rseq/arch/x86.h'
m('h-barrier', 'C25', CH, '#define rseq_barrier()		__asm__ __volatile__("" : : : "memory")', '#define rseq_barrier()		__asm__ __volatile__("")', 0)
m('h-access', 'C25', CH, '(*(__volatile__  __typeof__(x) *)&(x))', '(*(__typeof__(x) *)&(x))', 0)
m('h-mb64', 'C25', XH, '"lock; addl $0,-128(%%rsp)"', '"addl $0,-128(%%rsp)"', 0)
m('h-mb32', 'C25', XH, '"lock; addl $0,-128(%%esp)"', '"addl $0,-128(%%esp)"', 0)
m('h-mb-clobber', 'C25', XH, '"lock; addl $0,-128(%%rsp)" ::: "memory", "cc"', '"lock; addl $0,-128(%%rsp)" ::: "cc"', 0)
m('h-mb-redzone', 'C25', XH, '"lock; addl $0,-128(%%rsp)"', '"lock; addl $1,-128(%%rsp)"', 0)
m('h-rmb', 'C25', XH, '#define rseq_smp_rmb()	rseq_barrier()', '#define rseq_smp_rmb()	do { } while (0)', 0)
m('h-wmb', 'C25', XH, '#define rseq_smp_wmb()	rseq_barrier()', '#define rseq_smp_wmb()	do { } while (0)', 0)
m('h-ctrl', 'C25', XH, '#define rseq_smp_acquire__after_ctrl_dep()	rseq_smp_rmb()', '#define rseq_smp_acquire__after_ctrl_dep()	do { } while (0)', 0)
m('h-unqual-long', 'C25', CH, '			rseq_scalar_type_to_expr(long),			\\', '			unsigned long: (unsigned int)0, signed long: (signed int)0,			\\', 0)
m('h-unqual-sign', 'C25', CH, '	signed type: (signed type)0', '	signed type: (unsigned type)0', 0)
m('h-unqual-char', 'C25', CH, '			char: (char)0,					\\', '			char: (signed char)0,					\\', 0)
# fork behaviour of init pools
DF = '		if (madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n'
m('f-dontfork-first', 'C18', MP, DF, '		if (!pool->nr_ranges && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-later', 'C18', MP, DF, '		if (pool->nr_ranges && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-multi', 'C18', MP, DF, '		if (pool->attr.max_nr_cpus > 1 && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-robust', 'C18', MP, DF, '		if (!pool->attr.robust_set && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-small', 'C18', MP, DF, '		if (pool->attr.stride <= 65536 && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-half', 'C18', MP, DF, '		if (madvise(base, range_len - pool->attr.stride, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-dontfork-named', 'C18', MP, DF, '		if (!pool->name[0] && madvise(base, range_len, MADV_DONTFORK))\n			goto error_alloc;\n', 0)
m('f-wipe', 'C18', MP, DF, '		if (madvise(base, range_len, MADV_DOFORK))\n			goto error_alloc;\n', 0)
m('f-mark-first', 'C18', MP, '		*((char *) header) = 0x1;\n		if (madvise(header, page_size, MADV_WIPEONFORK))\n			goto error_alloc;', '		*((char *) header) = 0x1;\n		if (!pool->nr_ranges && madvise(header, page_size, MADV_WIPEONFORK))\n			goto error_alloc;', 0)
m('f-mark-later', 'C18', MP, '		*((char *) header) = 0x1;\n		if (madvise(header, page_size, MADV_WIPEONFORK))\n			goto error_alloc;', '		*((char *) header) = 0x1;\n		if (pool->nr_ranges && madvise(header, page_size, MADV_WIPEONFORK))\n			goto error_alloc;', 0)
m('f-wipe-all', 'C18', MP, 'madvise(header, page_size, MADV_WIPEONFORK)', 'madvise(header, header_len, MADV_WIPEONFORK)', 0)
# retry after a failed destruction, repeated and conflicting settings, rare combinations
m('k-bitmap-null', 'C17', MP, '	free(bitmap);\n	range->alloc_bitmap = NULL;', '	free(bitmap);', 0)
m('k-destroy-listadd', 'C17', MP, '			list_add(&range->node, &pool->range_list);\n			ret = -1;', '			ret = -1;', 0)
m('k-set-destroy-null', 'C17', MP, '		pool_set->entries[order] = NULL;\n', '', 0)
m('k-set-destroy-goon', 'C17', MP, '		ret = rseq_mempool_destroy(pool);\n		if (ret)\n			return ret;', '		ret = rseq_mempool_destroy(pool);\n		if (ret)\n			continue;', 0)
m('k-init-once', 'C20 C23', MP, '	attr->init_set = true;\n	attr->init_func = init_func;\n	attr->init_priv = init_priv;', '	if (!attr->init_set) {\n	attr->init_func = init_func;\n	attr->init_priv = init_priv;\n	}\n	attr->init_set = true;', 0)
m('k-priv-keep', 'C20 C23', MP, '	attr->init_priv = init_priv;', '	if (init_priv) attr->init_priv = init_priv;', 0)
m('k-poison-once', 'C20', MP, '	attr->poison_set = true;\n	attr->poison = poison;', '	if (!attr->poison_set) attr->poison = poison;\n	attr->poison_set = true;', 0)
m('k-poison-or', 'C20', MP, '	attr->poison_set = true;\n	attr->poison = poison;', '	attr->poison_set = true;\n	attr->poison |= poison;', 0)
m('k-poison-value', 'C20 C16', MP, 'if (attr.robust_set && !attr.poison_set) {', 'if (attr.robust_set && !attr.poison) {', 0)
m('k-poison-zero', 'C20 C16', MP, '	attr->poison_set = true;\n', '	attr->poison_set = poison != 0;\n', 0)
m('k-poison-norobust', 'C20 C16', MP, '	if (pool->attr.poison_set)\n		rseq_percpu_poison_item', '	if (pool->attr.robust_set || pool->attr.poison)\n		rseq_percpu_poison_item', 0)
m('k-ranges-keep', 'C20 C14', MP, '	attr->max_nr_ranges = max_nr_ranges;', '	if (max_nr_ranges) attr->max_nr_ranges = max_nr_ranges;', 0)
m('k-policy-init', 'C20 C23', MP, '	attr->populate_policy = policy;\n	return 0;', '	attr->populate_policy = policy;\n	if (policy == RSEQ_MEMPOOL_POPULATE_COW_ZERO) attr->init_set = false;\n	return 0;', 0)
m('k-policy-sticky', 'C20 C23', MP, '	attr->populate_policy = policy;\n	return 0;', '	if (!attr->init_set) attr->populate_policy = policy;\n	return 0;', 0)
m('k-percpu-stride', 'C20', MP, '	attr->type = MEMPOOL_TYPE_PERCPU;\n	attr->stride = stride;', '	attr->type = MEMPOOL_TYPE_PERCPU;\n	if (stride) attr->stride = stride;', 0)
m('k-percpu-ncpu', 'C20', MP, '	attr->max_nr_cpus = max_nr_cpus;\n	return 0;', '	if (max_nr_cpus) attr->max_nr_cpus = max_nr_cpus;\n	return 0;', 0)
m('k-global-stride', 'C20', MP, '	attr->type = MEMPOOL_TYPE_GLOBAL;\n	attr->stride = stride;', '	attr->type = MEMPOOL_TYPE_GLOBAL;\n	if (stride > attr->stride) attr->stride = stride;', 0)
m('k-global-init', 'C20 C23', MP, '	attr->type = MEMPOOL_TYPE_GLOBAL;\n', '	attr->type = MEMPOOL_TYPE_GLOBAL;\n	attr->init_set = false;\n', 0)
m('k-global-robust', 'C20 C15', MP, '		attr.max_nr_cpus = 1;\n', '		attr.max_nr_cpus = 1;\n		attr.robust_set = attr.robust_set && !attr.init_set;\n', 0)
m('k-robust-poison', 'C15', MP, '	if (!pool->attr.robust_set || !mapping_accessible)\n		return;\n	list_for_each_entry(range, &pool->range_list, node)\n		check_range_poison', '	if (!pool->attr.robust_set || !mapping_accessible || !pool->free_list_head->next)\n		return;\n	list_for_each_entry(range, &pool->range_list, node)\n		check_range_poison', 0)
m('k-robust-skip-zero', 'C15', MP, '	if (!pool->attr.robust_set)\n		return;\n	init_p', '	if (!pool->attr.robust_set || !poison)\n		return;\n	init_p', 0)
m('k-numa-zero', 'C24', MP, '	nr_pages = len >> rseq_get_count_order_ulong(page_len);', '	nr_pages = (unsigned int) len >> rseq_get_count_order_ulong(page_len);', 0)
m('k-numa-errno', 'C24', MP, '	nodes[0] = numa_node_of_cpu(cpu);\n	if (nodes[0] < 0)\n		return -1;', '	nodes[0] = numa_node_of_cpu(cpu);\n	if (nodes[0] < 0) { errno = 0;\n		return -1; }', 0)
m('k-numa-late', 'C24', MP, '		if (ret < 0)\n			return ret;', '		if (ret < 0 && page < nr_pages)\n			return ret;', 0)
# registration: errors taken for success, probing with side effects, transient sizes
RF = '		if (RSEQ_READ_ONCE(rseq_size) > 0) {\n			/* Incoherent success/failure within process. */'
m('j-ebusy-ok', 'C07', RS, RF, '		if (errno == EBUSY) return 0;\n' + RF, 0)
m('j-eperm-ok', 'C07', RS, RF, '		if (errno == EPERM) return 0;\n' + RF, 0)
m('j-einval-ok', 'C07', RS, RF, '		if (errno == EINVAL && !rseq_size) return 0;\n' + RF, 0)
m('j-einval-retry', 'C07 C08', RS, '	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n', '	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n	if (rc && errno == EINVAL) rc = sys_rseq(&__rseq_abi, ORIG_RSEQ_ALLOC_SIZE, 0, RSEQ_SIG);\n', 0)
m('j-avail-reg', 'C07 C08', RS, 'rc = sys_rseq(NULL, 0, 0, 0);\n		if (rc != -1)\n			abort();', 'rc = sys_rseq(&__rseq_abi, 32, 0, RSEQ_SIG);\n		if (!rc || errno == EBUSY) return true;', 0)
m('j-avail-probe', 'C07 C08', RS, 'rc = sys_rseq(NULL, 0, 0, 0);\n		if (rc != -1)\n			abort();', 'rc = sys_rseq(&__rseq_abi, 32, 0, RSEQ_SIG);\n		if (!rc) { sys_rseq(&__rseq_abi, 32, RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG); return true; }\n		if (errno == EBUSY) return true;', 0)
m('j-size-transient', 'C07', RS, '	if (RSEQ_READ_ONCE(rseq_size) == 0) {\n', '	RSEQ_WRITE_ONCE(rseq_size, 0);\n	if (RSEQ_READ_ONCE(rseq_size) == 0) {\n', 0)
m('j-size-before', 'C07', RS, '	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n', '	RSEQ_WRITE_ONCE(rseq_size, get_rseq_kernel_feature_size());\n	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n	if (rc) rseq_size = 0;\n', 0)
m('j-unreg-zero', 'C07', RS, '	if (rc)\n		return -1;\n	return 0;\n}\n\n/*\n * Initialize', '	if (rc)\n		return -1;\n	if (getpid() == gettid()) rseq_size = 0;\n	return 0;\n}\n\n/*\n * Initialize', 0)
m('j-unreg-fail0', 'C07', RS, '	if (rc)\n		return -1;\n	return 0;\n}\n\n/*\n * Initialize', '	if (rc && errno != EINVAL)\n		return -1;\n	return 0;\n}\n\n/*\n * Initialize', 0)
m('j-unreg-mark', 'C07 C09', RS, '	if (rc)\n		return -1;\n	return 0;\n}\n\n/*\n * Initialize', '	if (rc)\n		return -1;\n	RSEQ_WRITE_ONCE(__rseq_abi.cpu_id, 0);\n	return 0;\n}\n\n/*\n * Initialize', 0)
m('j-skip-registered', 'C07 C09', RS, '	rseq_init();\n\n	if (!rseq_ownership) {\n		/* Treat libc\'s ownership as a successful registration', '	rseq_init();\n	if (rseq_current_cpu_raw() >= 0) return 0;\n	if (!rseq_ownership) {\n		/* Treat libc\'s ownership as a successful registration', 0)
m('j-skip-once', 'C07', RS, '	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n', '	static __thread int once; if (once) return 0;\n	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n	if (!rc) once = 1;\n', 0)
m('j-once-fail', 'C07', RS, '	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n', '	static int failed; if (failed) return -1;\n	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);\n	if (rc) failed = 1;\n', 0)
m('j-min-alloc', 'C07 C08', RS, '	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)\n		alloc_size = ORIG_RSEQ_ALLOC_SIZE;', '	if (alloc_size <= ORIG_RSEQ_ALLOC_SIZE)\n		alloc_size = ORIG_RSEQ_FEATURE_SIZE;', 0)
m('j-own-nosize', 'C07 C08', RS, '			*libc_rseq_size_p != 0) {', '			(*libc_rseq_size_p != 0 || *libc_rseq_offset_p != 0)) {', 0)
m('j-libc-flags', 'C08', RS, '		rseq_flags = *libc_rseq_flags_p;\n', '', 0)
m('j-libc-20', 'C08', RS, '		case ORIG_RSEQ_FEATURE_SIZE:	/* Fallthrough. */\n', '', 0)
m('j-libc-min', 'C08', RS, '			rseq_size = libc_rseq_size;\n			break;', '			rseq_size = libc_rseq_size < get_rseq_kernel_feature_size() ? libc_rseq_size : get_rseq_kernel_feature_size();\n			break;', 0)
m('j-exit-libc', 'C07', RS, 'void rseq_exit(void)\n{\n	if (!rseq_ownership)\n		return;', 'void rseq_exit(void)\n{', 0)
m('j-fb-mask', 'C09', RS, '	cpu = sched_getcpu();', '	cpu = sched_getcpu() & 255;', 0)
m('j-fb-node16', 'C09', RS, '	return (int32_t) node_id;', '	return (int16_t) node_id;', 0)
m('j-fb-cache', 'C09', RS, '	cpu = sched_getcpu();', '	static __thread int32_t c = -1; if (c >= 0 && sched_getcpu() % 2 == c % 2) return c;\n	cpu = c = sched_getcpu();', 0)
# widths of ids
m('y-numa-node8', 'C24', MP, 'nodes[0] = numa_node_of_cpu(cpu);', 'nodes[0] = (signed char) numa_node_of_cpu(cpu);', 0)
m('y-numa-cpu8', 'C24', MP, 'nodes[0] = numa_node_of_cpu(cpu);', 'nodes[0] = numa_node_of_cpu(cpu & 255);', 0)
m('y-numa-cpu16', 'C24', MP, 'nodes[0] = numa_node_of_cpu(cpu);', 'nodes[0] = numa_node_of_cpu((short) cpu);', 0)
m('y-numa-flags8', 'C24', MP, 'nodes, status, numa_flags);', 'nodes, status, (unsigned char) numa_flags);', 0)
m('y-smp-16', 'C10', SM, 'static int possible_cpus_array_len_cache;', 'static unsigned short possible_cpus_array_len_cache;', 0)
m('y-smp-mask', 'C10', SM, '		return (int) cpu_index;', '		return (int) (cpu_index & 0xffff);', 0)
m('y-smp-dir', 'C10', SM, '				if (cpu_id > max_cpuid)', '				if ((short) cpu_id > max_cpuid)', 0)
m('y-smp-8192', 'C10', SM, '(cpu_index < INT_MAX)', '(cpu_index < 8192)', 0)
m('y-smp-buf', 'C10', SM, '#define RSEQ_CPUMASK_SIZE	4096', '#define RSEQ_CPUMASK_SIZE	2048', 0)
m('y-getmax16', 'C20', MP, '	return mempool->attr.max_nr_cpus;', '	return (short) mempool->attr.max_nr_cpus;', 0)
m('y-cb-len32', 'C23', MP, 'base, pool->attr.stride, -1)', 'base, (unsigned int) pool->attr.stride, -1)', 0)
m('y-cb-cpu8', 'C23', MP, '						pool->attr.stride, cpu)) {', '						pool->attr.stride, cpu & 127)) {', 0)
m('y-zero-cpu8', 'C12', MP, '	if (init_p)\n		bzero(init_p, pool->item_len);\n	for (i = 0; i < pool->attr.max_nr_cpus; i++) {', '	if (init_p)\n		bzero(init_p, pool->item_len);\n	for (i = 0; i < pool->attr.max_nr_cpus && i < 256; i++) {', 0)
m('y-init-cpu8', 'C12', MP, '		memcpy(init_p, init_ptr, init_len);\n	for (i = 0; i < pool->attr.max_nr_cpus; i++) {', '		memcpy(init_p, init_ptr, init_len);\n	for (i = 0; i < pool->attr.max_nr_cpus && i < 256; i++) {', 0)
m('y-poison-cpu8', 'C16', MP, '		rseq_poison_item(init_p, pool->item_len, poison);\n	for (i = 0; i < pool->attr.max_nr_cpus; i++) {', '		rseq_poison_item(init_p, pool->item_len, poison);\n	for (i = 0; i < pool->attr.max_nr_cpus && i < 256; i++) {', 0)
m('y-check-cpu8', 'C15', MP, 'pool->item_len, poison);\n	for (i = 0; i < pool->attr.max_nr_cpus; i++) {\n		char *p = __rseq_pool_range_percpu_ptr(range, i,\n				item_offset, pool->attr.stride);\n		rseq_check', 'pool->item_len, poison);\n	for (i = 0; i < pool->attr.max_nr_cpus && i < 256; i++) {\n		char *p = __rseq_pool_range_percpu_ptr(range, i,\n				item_offset, pool->attr.stride);\n		rseq_check', 0)
m('y-map-cpu8', 'C22', MP, '			for (cpu = 0; cpu < pool->attr.max_nr_cpus; cpu++) {\n				void *p = base', '			for (cpu = 0; cpu < pool->attr.max_nr_cpus && cpu < 256; cpu++) {\n				void *p = base', 0)
m('y-cb-max256', 'C23', MP, '			for (cpu = 0; cpu < pool->attr.max_nr_cpus; cpu++) {\n				if (pool', '			for (cpu = 0; cpu < pool->attr.max_nr_cpus && cpu < 256; cpu++) {\n				if (pool', 0)
m('y-zero-len', 'C12', MP, '		if (!rseq_cmp_item(p, pool->item_len, 0, NULL))\n			continue;', '		if (!rseq_cmp_item(p, pool->item_len > 65536 ? 65536 : pool->item_len, 0, NULL))\n			continue;', 0)
m('y-init-len', 'C12', MP, 'if (!memcmp(init_ptr, p, init_len))', 'if (!memcmp(init_ptr, p, init_len > 65536 ? 65536 : init_len))', 0)
m('y-poison-len', 'C16', MP, 'if (rseq_cmp_item(p, pool->item_len, poison, NULL) == 0)\n			continue;', 'if (rseq_cmp_item(p, pool->item_len > 32768 ? 32768 : pool->item_len, poison, NULL) == 0)\n			continue;', 0)
m('y-check-len', 'C15', MP, '	if (rseq_cmp_item(p, item_len, poison, &unexpected_value) == 0)', '	if (rseq_cmp_item(p, item_len > 32768 ? 32768 : item_len, poison, &unexpected_value) == 0)', 0)

# --- remembered state: "optimisations" that are right until some history
m('z-set-full-hint', 'C19 C14', MP, ['	struct rseq_mempool *entries[POOL_SET_NR_ENTRIES];', '		if (!pool)\n			continue;\n		if (pool->item_len >= len)', '			min_order = order + 1;'],
  ['	struct rseq_mempool *entries[POOL_SET_NR_ENTRIES];\n	bool full[POOL_SET_NR_ENTRIES];', '		if (!pool || pool_set->full[order])\n			continue;\n		if (pool->item_len >= len)', '			pool_set->full[order] = true;\n			min_order = order + 1;'])
m('z-sticky-fail', 'C14 C17', MP, ['	range = rseq_mempool_range_create(pool);\n	if (!range) {'], ['	range = rseq_mempool_range_create(pool);\n	if (!range) {\n		pool->attr.max_nr_ranges = pool->nr_ranges;'])
m('z-bitmap-malloc', 'C15', MP, 'range->alloc_bitmap = calloc(count, sizeof(unsigned long));', 'range->alloc_bitmap = malloc(count * sizeof(unsigned long));')
m('z-fl-init-cpu0', 'C22', MP, ['		/* COW_INIT free list is in init values */\n		if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n			p -= pool->attr.max_nr_cpus * pool->attr.stride;', '		/* COW_INIT free list is in init values */\n		if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)\n			p += pool->attr.max_nr_cpus * pool->attr.stride;'], ['', ''])
m('z-zero-hint', 'C12', MP, ['	unsigned long *alloc_bitmap;\n};', '	init_p = __rseq_pool_range_init_ptr(range, item_offset);\n	if (init_p)\n		bzero(init_p, pool->item_len);', '	pthread_mutex_lock(&pool->lock);\n	clear_alloc_slot(pool, range, item_offset);'],
  ['	unsigned long *alloc_bitmap;\n	bool used;\n};', '	if (!range->used && !pool->attr.init_set)\n		return;\n	init_p = __rseq_pool_range_init_ptr(range, item_offset);\n	if (init_p)\n		bzero(init_p, pool->item_len);', '	pthread_mutex_lock(&pool->lock);\n	range->used = pool->attr.poison != 0;\n	clear_alloc_slot(pool, range, item_offset);'])
m('z-poison-hint', 'C16 C15', MP, ['	unsigned long *alloc_bitmap;\n};', '		if (rseq_cmp_item(p, pool->item_len, poison, NULL) == 0)'], ['	unsigned long *alloc_bitmap;\n	size_t max_poisoned;\n};', '		if (*(uintptr_t *) p == poison && *(uintptr_t *) (p + pool->item_len - sizeof(uintptr_t)) == poison)'])
m('z-destroy-once', 'C17', MP, '			ret = -1;\n			goto end;\n		}', '			ret = -1;\n		}')
m('z-names', 'C17', MP, ['	free(pool->name);\n	free(pool);'], ['	if (!pool->attr.robust_set)\n		free(pool->name);\n	free(pool);'])
m('z-nr-dec', 'C14 C17', MP, '	(void) rseq_mempool_range_destroy(pool, range, true);\n	return NULL;', '	(void) rseq_mempool_range_destroy(pool, range, true);\n	if (pool->nr_ranges)\n		pool->nr_ranges--;\n	return NULL;')
m('z-nr-inc-fail', 'C14', MP, '	(void) rseq_mempool_range_destroy(pool, range, true);\n	return NULL;', '	(void) rseq_mempool_range_destroy(pool, range, true);\n	pool->nr_ranges++;\n	return NULL;')
m('z-lock-einval', 'C20 C21 C14', MP, ['	if (init_len > pool->item_len) {\n		errno = EINVAL;\n		return NULL;\n	}\n	pthread_mutex_lock(&pool->lock);'], ['	pthread_mutex_lock(&pool->lock);\n	if (init_len > pool->item_len) {\n		errno = EINVAL;\n		return NULL;\n	}'])
m('z-busy-unlock', 'C19 C21', MP, '		errno = EBUSY;\n		ret = -1;\n		goto end;', '		errno = EBUSY;\n		return -1;')
m('z-range-reuse', 'C14', MP, '	/* Add range to head of list. */\n	list_add(&range->node, &pool->range_list);', '	/* Add range to head of list. */\n	if (pool->nr_ranges < 3)\n		list_add(&range->node, &pool->range_list);\n	else\n		list_add_tail(&range->node, &pool->range_list);')
m('z-cpu-cache', 'C20 C10', MP, ['			attr.max_nr_cpus = rseq_get_max_nr_cpus();'], ['			static int cached;\n\n			if (!cached)\n				cached = rseq_get_max_nr_cpus() ? : 1;\n			attr.max_nr_cpus = cached;'])
m('z-poison-cow-default', 'C16', MP, '	if (attr.robust_set && !attr.poison_set) {\n		attr.poison_set = true;', '	if (attr.robust_set && (!attr.poison_set || !attr.poison)) {\n		attr.poison_set = true;')
m('z-child-all', 'C18', MP, '	range = list_first_entry(&pool->range_list, struct rseq_mempool_range, node);\n	page_size = rseq_get_page_len();', '	static bool known;\n	if (known)\n		return true;\n	known = true;\n	range = list_first_entry(&pool->range_list, struct rseq_mempool_range, node);\n	page_size = rseq_get_page_len();')
