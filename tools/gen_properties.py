#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
X = ["include/rseq/rseq.h", "include/rseq/arch/x86.h", "include/rseq/arch/x86/bits.h", "include/rseq/arch/generic/common.h"]
MP = ["src/rseq-mempool.c", "include/rseq/mempool.h"]

p("C01", "An interrupted rseq operation takes effect exactly once or not at all",
  "For every restartable per-CPU operation and every instruction at which its thread can be preempted, signalled or migrated, the operation either takes effect exactly once and reports success (or its compare outcome), or reports abort and leaves the target word exactly as the other threads left it. No committed update is ever lost, duplicated, or applied after the thread has lost the CPU (or concurrency id) it was started for.",
  ["schedules", "inputs", "configurations"], "all interruption points (single and repeated), all interfering updates and migrations, both index modes, 64- and 32-bit x86, all compilers/optimisation levels",
  "param_test samples a few injected delays with random preemption and only checks final sums; it never lands an interruption on each single instruction, nor two interruptions in one operation.",
  X, [("start/post-commit/abort descriptor around the instruction sequence", "RSEQ_ASM_DEFINE_TABLE, RSEQ_ASM_STORE_RSEQ_CS"), ("index compare inside the sequence", "RSEQ_ASM_CBNE_CPU_ID"), ("single final store", "bits.h 'final store'")],
  [dict(name="rseq_cs", meaning="armed critical section of the thread", where="struct rseq_abi")], ["return value and target memory of each helper"])
p("C02", "rseq operations compute their documented effect for every operand",
  "Run undisturbed by a thread on the stated CPU (or concurrency id), each restartable operation returns the documented code and changes memory exactly as its published pseudo-code says, for every operand value, offset, length and alignment, for both index modes and every supported memory order. An unsupported memory order or index mode is refused with -1 and changes nothing.",
  ["inputs", "configurations"], "all operand values including sign and width boundaries, immediates, lengths 0..n, aliasing offsets, every dispatch combination, 64- and 32-bit x86, several compilers and optimisation levels, C and C++",
  "The tests use small positive counts, one list and buffer layout and one compiler and optimisation level.",
  X + ["include/rseq/pseudocode.h"], [("asm bodies", "include/rseq/arch/x86/bits.h"), ("dispatch on memory order and index mode", "include/rseq/rseq.h")], observe=["return value and memory after the call"])
p("C03", "rseq operations fail cleanly on a CPU or concurrency-id mismatch",
  "An operation started for a CPU number (or, in the other mode, a concurrency id) that is not the thread's current one reports abort and changes no memory at all, whatever the other index fields contain. An operation executed by a thread that is not registered always fails.",
  ["inputs", "histories", "configurations"], "all combinations of requested index and thread index fields, both modes, all operations, registered/unregistered/failed states",
  "The tests always pass the index just read, on machines where CPU id and concurrency id often coincide, and never check memory after a failed attempt.",
  X + ["src/rseq.c", "include/rseq/abi.h"], [("index field offset per mode", "include/rseq/arch/templates/bits.h, RSEQ_ASM_CPU_ID_OFFSET/RSEQ_ASM_MM_CID_OFFSET"), ("uninitialised cpu id in unregistered area", "src/rseq.c")], observe=["return value and memory after the call"])
p("C04", "The committing store of an rseq operation is last and single",
  "In the multi-store operations the second word, the saved old head or the copied buffer is completely written before the target word changes, so an observer that sees the new target value also sees the complete data it publishes. Nothing is written when a comparison fails, and the target word changes in one single store.",
  ["schedules", "inputs", "configurations"], "every intermediate state an observer can see between any two instructions, all lengths, both modes, relaxed and release order",
  "Tests read the data under the same per-CPU protection, so a commit that precedes the data it publishes is never observed.",
  X, [("try-store / try-memcpy before final store", "include/rseq/arch/x86/bits.h")], observe=["memory state after each executed instruction"])
p("C05", "rseq operations disturb nothing but their documented targets",
  "Whatever the outcome (success, compare failure, abort at any point), an operation changes no memory except its documented targets and no variable, register or stack content of its caller, for any surrounding code, compiler and optimisation level. The caller may therefore reuse all arguments after the call, in particular to retry after an abort.",
  ["inputs", "programs", "schedules"], "surrounding programs with many live values, each outcome, interruption at each instruction, gcc and clang at -O0 to -O3, 64- and 32-bit",
  "Tests compile one program shape at -O2 and do not compare caller state before and after.",
  X, [("clobber lists and scratch save/restore", "include/rseq/arch/x86/bits.h"), ("compiler barrier at every exit", "rseq_after_asm_goto")], observe=["caller-saved and callee-saved registers, argument variables, guard zones"])
p("C06", "Critical-section metadata is valid for the kernel and for debuggers",
  "Every critical section is described by an aligned, version-0, flag-free descriptor that covers exactly the protected instructions, has a signed abort handler outside them, and is listed in the published descriptor and exit-point tables; whenever control leaves the section it does so at the end, the abort handler or a listed exit point. The descriptor is armed for the whole time preparatory or committing stores execute, and after preparing for unload the thread's area refers to no critical section.",
  ["schedules", "inputs", "programs"], "all operations, all control paths through them, all compilers and optimisation levels, 64- and 32-bit",
  "No test looks at the sections; a wrong signature or range only shows if an abort hits it.",
  X + ["include/rseq/abi.h"], [("descriptor, pointer array and exit point sections", "include/rseq/arch/generic/common.h"), ("signature before abort label", "RSEQ_ASM_DEFINE_ABORT"), ("clearing of the armed section", "rseq_clear_rseq_cs/rseq_prepare_unload")], observe=["__rseq_cs, __rseq_cs_ptr_array, __rseq_exit_point_array, rseq_cs field while stepping"])
p("C07", "Thread registration stays coherent with the kernel",
  "Registering unregistered threads and unregistering threads, in any order and from any number of threads, performs exactly the kernel registrations it reports: success means the thread's own published area is registered with the right signature and a length that later unregistration repeats, failure means nothing is registered. When the C library owns registration both calls succeed without touching the kernel's state, and before the first success the published size is 0 while after it no thread ever sees it become 0.",
  ["histories", "schedules", "fault_sequences", "configurations"], "sequences of register/unregister over many threads, kernel refusals and missing syscall, libc owned or not, kernels with any feature size",
  "basic_test registers once in one thread on one kernel.",
  ["src/rseq.c", "include/rseq/rseq.h", "include/rseq/abi.h"], [("ownership decision and once-only init", "rseq_init"), ("register/unregister", "rseq_register_current_thread, rseq_unregister_current_thread")],
  [dict(name="rseq_size/rseq_offset/rseq_flags", meaning="published registration state", where="src/rseq.c")], ["rseq system calls issued", "rseq_get_abi() area", "rseq_size"])
p("C08", "The advertised feature set is what kernel and C library both provide",
  "The published size equals the features both the kernel supports and the registered area has room for, for every combination of C library area size (a published size of 20 or 32 means a 32-byte area, any other size is already the active feature size) and kernel feature size; the node-id and concurrency-id predicates are true exactly when those fields are inside it. Availability queries answer truthfully for kernel and C library in every configuration.",
  ["configurations"], "all C library sizes (absent, 0, 20, 32, larger), all kernel feature sizes (absent, 20..1024), syscall present or absent",
  "Tests run with one C library on one kernel.",
  ["src/rseq.c", "include/rseq/rseq.h"], [("size intersection", "rseq_init, get_rseq_kernel_feature_size"), ("field availability", "rseq_node_id_available, rseq_mm_cid_available"), ("availability query", "rseq_available")], observe=["rseq_size, rseq_available(), rseq_*_available()"])
p("C09", "CPU and node queries are right in every thread state",
  "The current-CPU query returns the CPU the thread runs on whether the thread is registered or not, the raw query returns a negative value exactly when it is not registered, and the start-CPU and concurrency-id queries always return a value below the maximum number of CPUs. The node queries return the node of that CPU; the system-call node query is negative when the kernel refuses it.",
  ["schedules", "histories", "configurations"], "threads registered, never registered, unregistered again, forked; pinned on each CPU and migrating",
  "basic_test checks the registered main thread only, and compares the node fallback with itself.",
  ["include/rseq/rseq.h", "src/rseq.c"], [("fallback when the raw id is negative", "rseq_current_cpu, rseq_fallback_current_cpu, rseq_fallback_current_node")], observe=["return values against sched_getcpu/getcpu of a pinned thread"])
p("C10", "The CPU count covers every possible CPU id",
  "The maximum number of CPUs is one more than the highest CPU id in the kernel's possible-CPU list, whatever the form of the list and however its reading is split or interrupted; when the list is missing, empty, malformed or does not fit, it is the larger of the configured CPU count and one more than the highest CPU directory. It is 0 only when all of these fail, and a failure is not remembered; once known, the count stays the same for the rest of the process.",
  ["inputs", "fault_sequences", "configurations"], "all possible-list contents (sparse, multi-range, very long, malformed), read errors, EINTR, short reads, directory contents, sysconf results",
  "Tests see only the host's '0-7'.",
  ["src/smp.c", "src/rseq.c"], [("possible mask parser", "get_max_cpuid_from_mask"), ("directory and sysconf fallback", "get_num_possible_cpus_fallback"), ("cache", "get_possible_cpus_array_len")], observe=["rseq_get_max_nr_cpus()", "rseq_mempool_get_max_nr_cpus() of an auto-sized pool"])
p("C11", "Live pool items never overlap and are fully usable on every CPU",
  "At any time the live items of all pools are pairwise disjoint on every CPU, each aligned to and offering the pool's item size (requested length rounded up to a power of two, at least a pointer) on each CPU below the pool's maximum. Addresses of an item's copies are the item pointer plus CPU times stride, and no allocator-internal data lies inside a live item.",
  ["histories", "inputs", "schedules", "configurations"], "all alloc/free histories over one or several threads, pool geometries, policies, types and range counts",
  "mempool_test fills and empties a pool once, single-threaded, robust only, without checking disjointness.",
  MP, [("bump allocation, range extension and free list", "__rseq_percpu_malloc, librseq_mempool_percpu_free"), ("aligned range mapping", "aligned_mmap_anonymous"), ("per-cpu addressing", "rseq_percpu_ptr")], observe=["returned pointers; patterns written to all copies of all live items"])
p("C12", "Allocated items carry the requested initial content on every CPU",
  "An item from zeroed allocation reads as zero over its whole length, and an item from initialised allocation reads as the given bytes over the given length, on every CPU of the pool, from the moment the call returns, whether obtained from a pool or a pool set and whether the memory is fresh or recycled. Other threads' use of neighbouring items, including first writes that trigger copy-on-write, does not alter it.",
  ["histories", "inputs", "schedules", "configurations"], "all alloc/write/free histories, init lengths, policies, pool and set, with concurrent stores to neighbouring items",
  "Tests look at two words on CPU 0 of one recycled item, and never allocate from a set.",
  MP, [("zero and init propagation", "rseq_percpu_zero_item, rseq_percpu_init_item"), ("set front end", "__rseq_mempool_set_malloc")], observe=["bytes of every copy at return and later"])
p("C13", "Per-CPU copies and neighbouring items are isolated",
  "A store to one CPU's copy of an item changes neither the other CPUs' copies of it nor any other item, and allocator activity (allocating, freeing, extending, poisoning) never changes the content of a live item on any CPU.",
  ["histories", "inputs", "configurations"], "all histories of stores, allocations and frees over all policies, including never-written copies still backed by shared pages",
  "Tests never compare copies across CPUs after unrelated allocator activity.",
  MP, [("private COW mappings per CPU", "rseq_mempool_range_create"), ("free list placement", "__rseq_percpu_to_free_list_ptr")], observe=["shadow copy of every byte of every live item on every CPU"])
p("C14", "Pool capacity is exact and freed space is conserved",
  "A pool limited to N ranges serves exactly N times (stride / item size) simultaneously live items and then refuses with ENOMEM, an unlimited pool keeps growing, and any freed item's space can be allocated again before the pool grows. A refused or failed allocation changes nothing: the pool keeps serving after items are freed or the shortage ends.",
  ["histories", "configurations", "fault_sequences"], "all histories, range limits, geometries; mapping failures at any extension",
  "mempool_test checks the total once for a fixed item size with no frees in between and ignores errno.",
  MP, [("range limit and extension", "rseq_mempool_range_create, __rseq_percpu_malloc"), ("free list", "pool->free_list_head")], observe=["count of successful allocations, errno, mapped memory"])
p("C15", "Robust pools detect every promised misuse and never accuse a correct user",
  "A robust pool stops the process on every double free, every item leaked at destruction, every corruption of its free list present at destruction, and every change to any word of a freed item on any CPU, at the latest when that item is reallocated or the pool destroyed. A program that uses the pool correctly is never stopped.",
  ["histories", "inputs", "configurations"], "every item position, word, CPU, range, policy and poison value, interleaved with correct operations",
  "Tests corrupt the first word of the first item of a one-CPU pool.",
  MP, [("allocation bitmap", "set_alloc_slot, clear_alloc_slot, destroy_alloc_bitmap"), ("poison check", "rseq_percpu_check_poison_item, check_pool_poison"), ("free list walk", "check_free_list")], observe=["child process outcome (SIGABRT or clean) per misuse"])
p("C16", "Freed items are overwritten with the poison value on every CPU",
  "In a pool with a poison value, once an item is freed its old content is gone on every CPU: every word of every copy reads as the poison value, except that a non-robust pool may keep one word of free-list linkage at one offset (visible on every CPU whose copy still shares that page). Without a poison value freeing does not need to alter the copies.",
  ["histories", "inputs", "configurations"], "all item sizes, CPU counts, poison values, policies, written and never-written copies",
  "No test reads freed memory.",
  MP, [("poison on free", "rseq_percpu_poison_item")], observe=["bytes of freed items on every CPU"])
p("C17", "Failed and destroyed pools give back every resource",
  "If creating a pool, adding a range, or creating a set fails at any point, the call reports failure with errno set and nothing it acquired (address space, file descriptors, heap) remains; destroying a pool or set returns everything it ever acquired, including all ranges. Each resource is released once, and nothing else is released. A destruction that cannot complete reports an error instead of success.",
  ["fault_sequences", "histories", "configurations"], "failure of each individual resource acquisition or release call, for each configuration, followed by continued use and destruction",
  "No test injects faults or accounts for resources.",
  MP, [("error unwinding", "rseq_mempool_range_create error_alloc, rseq_mempool_create error_alloc"), ("destruction", "rseq_mempool_destroy, rseq_mempool_range_destroy, rseq_mempool_set_destroy")], observe=["address-space, descriptor and heap ledgers around each call"])
p("C18", "Pools behave across fork as documented",
  "After fork a child can destroy a copy-on-write-init pool to release its own leftovers without affecting the parent or any mapping the child has made since, and nothing the child does changes pool content seen by the parent. A zero-populated pool is fully usable in the child as a private copy of the parent's content at fork time; the pool stays fully usable in the parent.",
  ["histories", "schedules", "configurations"], "any pool history before fork, any child activity, several ranges and generations of children",
  "Tests only destroy a fresh one-range pool in the child.",
  MP, [("DONTFORK/WIPEONFORK marking", "rseq_mempool_range_create"), ("child detection", "pool_mappings_accessible"), ("header-only unmap", "rseq_mempool_range_destroy")], observe=["parent and child memory, mappings and exit status"])
p("C19", "Pool sets serve each request from the smallest fitting pool with room",
  "A set allocation is served by the pool with the smallest item size that fits the requested length and still has room, falls through to larger pools when smaller ones are full, and fails with ENOMEM only if none can serve. One pool per size class is accepted (a second is refused with EBUSY and stays the caller's), and destroying the set destroys exactly the pools it owns.",
  ["histories", "inputs"], "all sets of pools, request lengths (0, boundaries, huge), fill levels and orders of addition",
  "No test uses pool sets.",
  MP, [("size class search and retry", "__rseq_mempool_set_malloc"), ("ownership", "rseq_mempool_set_add_pool, rseq_mempool_set_destroy")], observe=["which pool's address range serves each request, errno"])
p("C20", "Invalid pool parameters are refused and attributes mean what they say",
  "Pool creation fails with EINVAL for item lengths above the stride, strides below a page or not a power of two, negative CPU counts and unknown policies, attribute setters fail with EINVAL on a null attribute, initialised allocation of more than an item fails with EINVAL, and the maximum-CPU query fails on null or global pools; nothing is created in these cases. Valid settings take effect exactly as set (defaults for 0), the attribute object and the name passed are not retained (any name is accepted), and later changes to them do not affect the pool.",
  ["inputs", "configurations"], "all parameter values including 0, extremes and overflowing combinations, all setter orders",
  "Tests only use valid parameters.",
  MP, [("validation", "rseq_mempool_create"), ("setters", "rseq_mempool_attr_set_*"), ("query", "rseq_mempool_get_max_nr_cpus")], observe=["return values, errno, geometry of the resulting pool"])
p("C21", "Pool and set operations are safe under concurrency",
  "Allocations, frees, set additions and set allocations by any number of threads on the same pools behave as if executed one after the other: no two threads ever own the same item at once, no freed item is lost, the limits hold exactly, and the pool's own state has no data race.",
  ["schedules", "histories"], "all interleavings of alloc/free/add/extend by many threads, with items freed by other threads than allocated them",
  "All mempool tests but one are single-threaded, and that one never shares a pool's allocator.",
  MP, [("pool lock", "pool->lock"), ("set lock", "pool_set->lock")], observe=["atomic ownership map, allocation history, ThreadSanitizer"])
p("C22", "Per-CPU memory is populated only when written",
  "Allocating, zero-allocating and freeing items populates no private page for a CPU that has not written to the pool: with zero population as long as contents and poison are zero, and with copy-on-write-init population whatever the initial values. The only exception is CPU 0 of a non-robust zero-populated pool, where the free list is kept. Memory cost of an idle CPU is therefore address space only.",
  ["histories", "configurations"], "all allocation histories without CPU stores, policies, CPU counts, robust or not",
  "No test measures population.",
  MP, [("compare before write", "rseq_percpu_zero_item, rseq_percpu_init_item, rseq_percpu_poison_item"), ("init page sharing", "rseq_mempool_range_create")], observe=["/proc/self/pagemap of each CPU's area"])
p("C23", "The range init callback runs exactly once per CPU and range",
  "With an init callback, each new range invokes it exactly once per CPU in the pool (CPU numbers 0..max-1 with that CPU's area and the stride as length; once with -1 for a global pool), with the private pointer given, before any item of that range is handed out, and what it writes is what freshly allocated items contain. If it fails, creation or the extending allocation fails and later attempts can succeed.",
  ["histories", "fault_sequences", "configurations"], "all CPU counts, range counts, policies, types, failure at any invocation",
  "No test sets an init callback.",
  MP, [("callback loop", "rseq_mempool_range_create"), ("setter", "rseq_mempool_attr_set_init")], observe=["recorded callback invocations against item addresses"])
p("C24", "The NUMA helper moves each page of the range exactly once to the right node",
  "For any range of whole pages and any CPU the NUMA helper requests every page of the range exactly once, no page outside it, and always to the node of the given CPU, passing the caller's flags. It returns -1 with errno set when flags are missing, the CPU is unknown or the kernel refuses, and 0 otherwise.",
  ["inputs", "fault_sequences"], "all lengths (0, sub-batch, exact batch multiples, odd), CPUs and kernel responses",
  "No test calls it.",
  MP, [("batched move_pages", "rseq_mempool_range_init_numa")], observe=["recorded page-move requests"])
p("C25", "The memory-ordering primitives order accesses as documented",
  "The full barrier forbids a later load from being satisfied before an earlier store is visible; a store-release makes every earlier access visible before it, and a load-acquire keeps every later access after it, against compiler and processor reordering, for all scalar types and under any optimisation level. Values pass through unchanged in type, width and sign.",
  ["schedules", "programs", "inputs"], "litmus programs (store buffering, message passing, load buffering) and loops the compiler would like to reorder, all optimisation levels and compilers",
  "arch-mo.c only checks that values survive, in one thread.",
  ["include/rseq/arch/x86.h", "include/rseq/compiler.h"], [("barrier macros", "rseq_smp_mb, rseq_smp_load_acquire, rseq_smp_store_release"), ("compiler barrier", "rseq_barrier")], observe=["litmus outcomes on two threads; compiled loops observed while stepping"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import sys
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print(len(P), "properties valid")
except ImportError:
    print(len(P), "written (no jsonschema)")
