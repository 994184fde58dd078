PROPS = []
NOT_APPLICABLE = {}
def P(id, title, statement, over, for_all, tests, files, mech, bounds, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), for_all=for_all, tests=tests, files=["tcmalloc/" + f for f in files.split()],
                      mech=mech, bounds=bounds, **kw))

P("C01", "Every allocation is big enough, aligned, writable and disjoint from live ones",
  "For every allocation entry point, size and alignment, a successful request returns memory that holds at least the requested bytes, is aligned as asked (or as the entry point promises), is backed by writable memory over its whole reported usable size, and overlaps no other live allocation. "
  "The usable size, the capacity returned by size-returning entry points and the size estimate agree with each other, and the memory can be released through every deallocation function that matches the allocation, after which it may be handed out again but live memory never is.",
  "inputs programs configurations", "all entry points, request sizes, alignments, matching deallocation functions, unsampled, sampled and guarded allocations",
  "Tests call a few entry points with a few hand-picked sizes and alignments; the allocator itself is not part of the tests that run here.",
  "tcmalloc.cc sizemap.cc sizemap.h thread_cache.cc central_freelist.cc span.cc page_allocator.cc huge_page_aware_allocator.h pagemap.h guarded_page_allocator.cc allocation_sampling.h",
  [("size class lookup and span carving", "tcmalloc/sizemap.h, tcmalloc/span.h"), ("page map", "tcmalloc/pagemap.h"), ("sampled and guarded paths", "tcmalloc/allocation_sampling.h")],
  "one allocation of symbolic size up to 300000 bytes per entry point (20000 sampled, 600 guarded) with a live neighbour, one release through every matching function, two re-allocations; 9 alignments; per-CPU mode (the default front end), one thread, plus one thread-cache-mode entry.",
  observe=["malloc family", "operator new family", "malloc_usable_size", "nallocx"])

P("C02", "Size classes: least sufficient, aligned, and sized deletion agrees",
  "For every size class table the library ships and every request size, alignment and memory kind, the class chosen for a request is at least as large as the request, satisfies the alignment, is the smallest such class, and is the class that deallocation by size, the capacity query and the size estimate compute for the same request. "
  "Requests the classes do not cover are rejected by the classification rather than rounded down.",
  "inputs configurations", "all request sizes up to and beyond the largest class, alignments and tables",
  "Unit tests walk selected sizes over one configured table; the lookup arithmetic and table validation must agree for every size, alignment and table.",
  "sizemap.cc sizemap.h size_classes.cc legacy_size_classes.cc experimental_pow2_size_class.cc reuse_relaxed_below_64_size_classes.cc common.h",
  [("class lookup", "tcmalloc/sizemap.h SizeMap::GetSizeClass"), ("table construction", "tcmalloc/sizemap.cc SizeMap::Init")],
  "every 64-bit request size (symbolic), 4 tables, 10 alignment/partition policies.")

P("C03", "calloc memory is zero and realloc preserves contents",
  "Memory returned by a zeroing allocation reads as zero over the whole request, even when it is recycled memory that was dirty. "
  "Resizing an allocation, in place or by moving, keeps the first min(old, new) bytes, reports a usable size of at least the new request, and releases the old block exactly once when it moves.",
  "inputs histories", "all element counts and sizes, old sizes, new sizes and byte positions",
  "Which branch (in place, grow, shrink, move) is taken depends on the exact old and new sizes; tests try a handful of pairs on fresh memory.",
  "tcmalloc.cc sizemap.h", [("do_calloc, do_realloc", "tcmalloc/tcmalloc.cc")],
  "symbolic sizes within windows up to 300 KiB chosen around class and page boundaries; one dirty-release-reallocate round or one resize; a symbolic byte position.")

P("C04", "Requests that cannot be met fail cleanly",
  "A request whose size, product or rounded size overflows or exceeds the address space, whose alignment is not valid, or for which the system gives no memory fails the way its entry point documents: null with the right errno, an error code with the result untouched, or process death for the throwing operators. "
  "A failed request changes and releases no live allocation, and later ordinary requests still succeed.",
  "inputs fault_sequences", "all sizes, counts, alignments and points at which the system starts refusing memory",
  "Overflow windows are a few values wide in a 64-bit space and refusal can strike any system call; tests try single values and never make the system refuse.",
  "tcmalloc.cc page_allocator.cc huge_page_aware_allocator.h internal/system_allocator.h internal/overflow.h",
  [("size and alignment checks", "tcmalloc/tcmalloc.cc do_malloc_pages, do_memalign"), ("out-of-memory policy", "tcmalloc/tcmalloc_policy.h")],
  "every 64-bit size at or above 2^47, every alignment, products of every 64-bit count with 14 (25 thorough) element sizes from 2 to 2^64-1 as either factor; memory refused after 0-2 grants for four size ranges; exhaustion of the allocator's own metadata (which ends the process by design) is outside.")

P("C12", "The hugepage filler conserves pages and never hands a live page out twice",
  "The structure that packs spans onto hugepages hands out disjoint in-hugepage ranges, never reuses a page before it was returned, and gives a hugepage back exactly when its last page is returned. "
  "Its page, free, released and per-kind counts equal what the operation history implies, including when returning memory to the system fails and while hugepages are collapsed or released in the background with the lock dropped.",
  "histories inputs fault_sequences", "all histories of allocate, free, release and subrelease with every span size, density class, prior release state, failing release call, treatment pass and operation running while a pass has dropped the lock",
  "Fuzz and unit tests sample histories; a tracker filed under the wrong list or a miscounted page appears only for particular sizes after particular histories.",
  "huge_page_filler.h huge_page_tracker.h hinted_tracker_lists.h span_stats.h huge_page_treatment.h", [("HugePageFiller::TryGet/Put/ReleasePages/TreatHugepageTrackers", "tcmalloc/huge_page_filler.h"), ("PageTracker", "tcmalloc/huge_page_tracker.h")],
  "hugepages of 8 pages (256 KiB page build), up to 3 operations (4-5 thorough) after up to 2 contributed trackers, symbolic span lengths and object counts; one or two treatment passes with up to 2 operations while the lock is dropped.")

P("C13", "Hugepage-level allocators hand out disjoint ranges and count them exactly",
  "The hugepage address map, allocator and cache hand out hugepage ranges that never overlap a range still in use, give back only ranges they were given, and merge and split free ranges without losing or duplicating any hugepage. "
  "Their reported in-use, free, cached and system totals equal the sums implied by the history, whatever the system returns for growth or release requests.",
  "histories inputs fault_sequences", "all histories of growth, get, release and return with symbolic lengths and addresses, adjacent or disjoint grants and failing system calls",
  "Merging and splitting depends on adjacency of addresses the system picks; tests fix those addresses.",
  "huge_address_map.cc huge_allocator.cc huge_cache.cc", [("HugeAddressMap merge", "tcmalloc/huge_address_map.cc"), ("HugeCache", "tcmalloc/huge_cache.cc"), ("HugeAllocator", "tcmalloc/huge_allocator.cc")],
  "2-4 operations (3-5 thorough) with symbolic lengths; symbolic adjacency of grants.")

P("C20", "Bitmap and free-range tracking are exact",
  "The bitmaps and range trackers that all page-level bookkeeping rests on report exactly the bits that were set: population counts, next/previous set or clear searches and free-range enumeration agree with a bit-by-bit reading for every content and position. "
  "A tracked range allocator never returns a range overlapping a marked one, and its longest-free and used totals stay exact.",
  "inputs histories", "all bitmap contents, positions and lengths, and all histories of mark and unmark",
  "Word-boundary arithmetic fails for single (start, length, content) combinations among 2^N contents; tests sample.",
  "internal/range_tracker.h", [("Bitmap word scanning", "tcmalloc/internal/range_tracker.h"), ("RangeTracker::FindAndMark", "tcmalloc/internal/range_tracker.h")],
  "fully symbolic contents of 128- and 256-bit maps, all positions; 3 symbolic mark/unmark operations for the tracker.")

P("C05", "Detectable misuse of the release functions ends the process at that call",
  "Releasing a pointer with impossible address bits, a misaligned pointer or one inside a large allocation, releasing a large allocation twice or with a size that cannot be its own, and releasing a sampled allocation with another size, family or alignment end the process at that call; correct use never does. "
  "A guarded allocation sits beside inaccessible pages, is inaccessible after release, and a write into its right-hand padding is reported when it is released.",
  "inputs histories", "all sizes, pointers, offsets, alignments and deallocation functions",
  "Death tests sample a few pointers and sizes; an off-by-one in a bound lets a single size or offset through.",
  "tcmalloc.cc allocation_sampling.h guarded_page_allocator.cc", [("InvokeHooksAndFreePages, do_free", "tcmalloc/tcmalloc.cc"), ("MaybeUnsampleAllocation", "tcmalloc/allocation_sampling.h"), ("GuardedPageAllocator::Deallocate", "tcmalloc/guarded_page_allocator.cc")],
  "sizes 0-2000 and 262145-330000 unsampled, 0-500 and 262145-270000 sampled, every pointer offset within them, every 64-bit wrong size and every impossible high-bit pattern; guarded sizes in four windows with offsets up to 7.")

P("C06", "Central free lists conserve objects and never hand one out twice",
  "Every object a central free list hands out lies on an object slot of a live span of its size class, is not already in use, and keeps its contents until it is returned. "
  "After every history of removals and returns, in any order and batching, the list's length, each span's in-use count, and the live-span and capacity statistics equal the true ones, and a span goes back to the page heap exactly when its last object returns. "
  "An object of another size class is never accepted.",
  "histories inputs", "all histories of batched removals and returns, all objects of a span and all orders within a batch",
  "Which objects share a span, in which order they return and where the in-object free list wraps are combinatorial; tests shuffle a few.",
  "central_freelist.h central_freelist.cc span.h span.cc", [("CentralFreeList::RemoveRange/InsertRange", "tcmalloc/central_freelist.h"), ("Span free list and bitmap", "tcmalloc/span.h, tcmalloc/span.cc")],
  "every object index (symbolic, 1-3 at a time) of every size class; histories of 4-6 batches (5-8 thorough) of up to 3 objects; every order of 4-6 objects of 2-3 spans in one batch; runs of up to 50 (200) frees through the in-object list.")

P("C07", "Transfer caches conserve objects and respect their capacity",
  "Every object given to a transfer cache is handed out again exactly once or returned to the central free list, whatever the sequence and interleaving of insertions, removals, plundering and resizing. "
  "A cache never holds more than its capacity, its capacity never exceeds its maximum and changes by whole batches, resizing between classes creates and destroys no capacity, and objects untouched for a plunder cycle are returned.",
  "histories inputs schedules", "all capacities, batch sizes, request sizes and histories; all interleavings of two threads within the bounds",
  "Partial insertions and shrinking while nearly full depend on exact fill levels, and plundering drops its lock midway; tests sample.",
  "transfer_cache.h transfer_cache.cc transfer_cache_internals.h", [("TransferCache", "tcmalloc/transfer_cache_internals.h"), ("TransferCacheManager", "tcmalloc/transfer_cache.h")],
  "symbolic capacity and maximum up to 5 (6), batch up to 3, 3-4 (5) symbolic operations; 3-4 operations on five real classes; two threads with one operation each (any pair) and 1 preemption.")

P("C08", "Per-thread caches conserve objects and account for every byte they hold",
  "Across any history of allocations and releases of any sizes, list overflows, scavenging, changes of the cache limit, and threads going idle, every object a thread cache was given is handed out exactly once or passed on to the transfer cache, and objects in use are never overwritten or handed out again. "
  "The bytes a thread cache reports equal the objects it holds, and an idle thread keeps none.",
  "histories inputs schedules", "all histories, request sizes and two-thread interleavings within the bounds",
  "Slow start, overflow and low-water marks interact over long histories; tests run a few fixed loops.",
  "thread_cache.cc thread_cache.h internal/linked_list.h", [("ThreadCache::Allocate/Deallocate/Scavenge", "tcmalloc/thread_cache.cc"), ("LinkedList", "tcmalloc/internal/linked_list.h")],
  "3 (4) operations with runs of up to 121 objects on two classes; 3 (4) requests and releases of symbolic size in three windows; two threads with one operation each (any of 5) and 1 (2) preemptions.")

P("C11", "The page map answers every page exactly and survives running out of memory",
  "For every page number, the page map returns the span, size class and hugepage record that was last set for that page and nothing for every other page; pages beyond the address space read as unmapped and cannot be covered. "
  "Covering a range makes exactly its pages addressable, starts them out empty, is idempotent, reports failure when memory for the map is refused and can then be retried. Enumeration finds exactly the pages set, in order.",
  "inputs fault_sequences", "all page numbers, ranges and lengths, including those crossing node boundaries, and every point at which memory is refused",
  "The map spans 2^35 pages; tests probe a few. Off-by-one errors live on node boundaries and at the end of the address space.",
  "pagemap.h pagemap.cc", [("PageMap3::Ensure, get, set", "tcmalloc/pagemap.h"), ("get_next_set_page", "tcmalloc/pagemap.h")],
  "the three-level map with 8 KiB pages: every 64-bit page for absence, ranges of up to 20 pages (5000 thorough) anywhere within windows around node, leaf and hugepage boundaries and the end of the address space; two pages set for enumeration; refusal at each of the first four node allocations.")

P("C14", "Page-allocator spans are disjoint, of the right length and kind, and counted",
  "The page allocator hands out spans of exactly the requested length, alignment and memory kind, backed by mapped memory, registered in the page map and disjoint from every live span, whichever layer (filler, region, cache, huge allocator) serves them. "
  "Its in-use, free and unmapped totals and its free-span tables always equal what the history of allocations, deallocations and releases implies.",
  "histories inputs", "all histories of span allocation, aligned allocation, deallocation and release with every length up to several hugepages and beyond a region",
  "Which layer serves a span, and how its tail is shared with small spans, depends on exact lengths and order; the page allocator is not part of the tests that run here.",
  "page_allocator.h page_allocator.cc huge_page_aware_allocator.h huge_region.h huge_page_filler.h huge_cache.cc span.cc", [("HugePageAwareAllocator::New/Delete", "tcmalloc/huge_page_aware_allocator.h"), ("HugeRegion", "tcmalloc/huge_region.h"), ("stats", "tcmalloc/page_allocator.h")],
  "2-4 operations from the initial state or after 38-44 spans that open a region; every length in windows up to 40 pages (and around 400 hugepages) with 256 KiB pages, and around one hugepage with 8 KiB pages; one memory kind per history; symbolic release requests. Sets of one or two shared regions on their own (region.cc): 3-5 operations on the last 1-3 hugepages, with the system refusing any call, whole or halved ranges given back, and idle hugepages kept or returned.")

P("C15", "Returning memory to the system never touches live memory and is counted exactly",
  "No range returned to the operating system ever intersects a live span or allocation, so live contents survive every release, whether asked for explicitly, triggered by deallocation, or failing part-way. "
  "What is reported as released, and the movement of the free, unmapped and heap-size statistics, equals what was really returned, and returned memory is usable again when handed out.",
  "histories inputs fault_sequences", "all histories of allocation, deallocation and release requests of every size, with any of the system's release calls failing",
  "The range released depends on the free pattern inside a hugepage and on earlier releases and failures; tests check counters on a few patterns with a system that never fails.",
  "huge_page_filler.h huge_cache.cc huge_region.h huge_page_aware_allocator.h internal/system_allocator.h static_vars.h tcmalloc.cc", [("ReleaseAtLeastNPages", "tcmalloc/huge_page_aware_allocator.h"), ("SystemAllocator::Release", "tcmalloc/internal/system_allocator.h"), ("ReleaseMemoryToSystem", "tcmalloc/tcmalloc.cc")],
  "page-level histories of 2-4 operations with symbolic request sizes and a symbolic set of failing system calls (first three); allocator-level: 2-3 allocations, every subset freed, one release of symbolic size, one reallocation.")

P("C17", "Memory limits hold whenever there is anything left to give back",
  "With a soft limit set, after every operation either backed memory is within the limit or no free memory is left to return to the system. "
  "With a hard limit set, the process never continues with more backed memory than the limit allows (beyond the operation's own bookkeeping); limits read back as set, the soft limit never exceeds the hard one, and limit hits are counted.",
  "inputs histories", "all limits relative to the memory in use, span lengths and frees before and after setting the limit",
  "Shrinking to a limit runs through every layer and depends on the exact free pattern; tests set one limit on one pattern.",
  "page_allocator.cc page_allocator.h huge_page_aware_allocator.h", [("ShrinkToUsageLimit", "tcmalloc/page_allocator.cc"), ("set_limit", "tcmalloc/page_allocator.h")],
  "1-2 spans (up to 7 before) and one free, every limit within two hugepages of the memory in use, one allocation under the limit; 256 KiB pages; three memory kinds.")

P("C27", "The intrusive lists keep exactly their elements in order",
  "The doubly linked lists used for trackers and spans and the singly linked object lists used by the thread caches contain exactly the elements added and not removed, in the order the operations imply, with the right length; batches are taken and put back whole.",
  "histories", "all histories of list operations on two lists",
  "Every cache and tracker relies on these lists; tests exercise a few fixed sequences.",
  "internal/linked_list.h", [("TList, LinkedList", "tcmalloc/internal/linked_list.h")],
  "every sequence of 4 (5 thorough) operations on two doubly linked lists and of 5 (7 thorough) on a singly linked list with batches of up to 3.")

P("C16", "Address ranges from the system are fresh, aligned, tagged and accessible",
  "Every address range obtained from the operating system is at least as long and as aligned as asked, carries the memory kind's tag throughout, lies in the usable address space, is reserved and made accessible, and never overlaps an earlier range; a request that cannot be met reports failure and leaves earlier ranges alone. "
  "Giving memory back affects exactly the whole pages inside the range, follows the configured preference, and reports success only when the system accepted it; collapse retries are bounded and report the real outcome; errno is preserved.",
  "inputs histories fault_sequences", "all sizes, alignments, memory kinds, ranges, and every refusal or transient error of the system's calls within the bounds",
  "Placement depends on sizes across region and tag boundaries and on which system calls are refused; tests never make the kernel refuse.",
  "internal/system_allocator.h internal/system_allocator.cc internal/memory_tag.h", [("SystemAllocator::Allocate, MmapAligned, Release, Collapse", "tcmalloc/internal/system_allocator.h")],
  "1-3 requests of symbolic size in six windows (including every 64-bit size and sizes across tag boundaries), alignments 2^12..2^26 and 2^40..2^63, symbolic masks of refused mmap, mprotect and region creation, six memory kinds, addresses occupied by others, kernels without MAP_FIXED_NOREPLACE; Release and Collapse for every address, length, preference and answer sequence with up to 2 transient errors.")

P("C18", "Guarded allocations get a page of their own with guards, at the configured rate",
  "A guarded allocation never shares its page or a neighbouring page with another, is aligned and inside its page with inaccessible pages on both sides, is inaccessible after release, and no more than the configured number are live at once; a refused protection change hands out nothing and loses no slot. "
  "Any address in the pool is attributed to the right allocation, offset, size, call stacks of allocation and release, and kind of error. Guarded sampling never exceeds its configured rate nor is refused well below it; a call stack already guarded is passed over once half the pool is in use, and served again after its allocation is gone and the pool reset.",
  "inputs histories fault_sequences", "all histories, sizes, alignments, placements and addresses within the bounds; all sampling counts and intervals",
  "Placement is random and classification depends on the exact address; tests try a few addresses of one placement.",
  "guarded_page_allocator.h guarded_page_allocator.cc guarded_allocations.h", [("GuardedPageAllocator", "tcmalloc/guarded_page_allocator.cc")],
  "pools of 2-3 slots (with and without spare ones), 1-4 operations, several random seeds, sizes in windows at 0-33, 4080-4100 and 8170-8192 with 6 alignments, every address in or near the slot; rate: every guarded interval up to 2^40 and up to 2^20 samples.")

P("C19", "Sampling decisions, weights and profiles match what was allocated",
  "An allocation is sampled exactly when the bytes allocated since the last sample pass the sampling point, with a weight of the interval plus the overshoot, and switching sampling off samples nothing; the prediction whether an allocation will be sampled is right. "
  "The heap profile lists exactly the live sampled allocations with their sizes, alignment, kind, access hint, kind of memory, time, guarding, call stack and a handle of their own; the peak profile lists those live at the peak; an allocation profile lists exactly those made while it ran; sampled totals and fragmentation return to zero with the last sample.",
  "inputs histories", "all sizes, histories of allocation and release, and starting points of a profile within the bounds",
  "The sampling point falls anywhere among the sizes; tests check statistical tendencies.",
  "sampler.h sampler.cc allocation_sampling.h allocation_sampling.cc stack_trace_table.cc peak_heap_tracker.cc allocation_sample.cc span.cc sampled_allocation_recorder.h", [("Sampler", "tcmalloc/sampler.cc"), ("SampleifyAllocation", "tcmalloc/allocation_sampling.h"), ("PeakHeapTracker", "tcmalloc/peak_heap_tracker.cc")],
  "two symbolic sizes up to 2^40 at four intervals; histories of 2-4 operations over up to 7 entry points with every size in windows of 3-11 bytes at class boundaries and at 256 KiB, two alignments, all sampled, with and without guarding, plus partial sampling at 64 KiB.")

P("C09", "The per-CPU slab conserves objects under preemption, migration and stops",
  "Every object pushed into a per-CPU slab comes out exactly once, from the same CPU and class, or stays there, however the pushing and popping code is preempted, moved to another CPU or stopped by another thread at any instruction, and whether objects move singly or in batches. "
  "Lengths and capacities equal what the history implies, a class never holds more than its capacity nor is granted more than its maximum, refusals happen only when full, empty or stopped, and stopping, draining, shrinking, growing and moving a CPU's slab loses and duplicates nothing; memory of slabs no longer in use is given back only when nobody can use it.",
  "interleavings histories inputs", "all points of interruption and migration, all histories of operations and all schedules of a local and a remote operation within the bounds",
  "The sequences are restartable assembly whose correctness depends on being interrupted at each single instruction and on fences between CPUs; a test cannot choose where the kernel preempts it.",
  "internal/percpu_tcmalloc.h internal/percpu_rseq_asm.S internal/percpu.h internal/percpu.cc internal/linux_syscall_support.h", [("TcmallocSlab", "tcmalloc/internal/percpu_tcmalloc.h"), ("restartable sequences", "tcmalloc/internal/percpu_rseq_asm.S"), ("FenceCpu, registration", "tcmalloc/internal/percpu.cc")],
  "x86-64 sequences, lifted instruction by instruction; 2 CPUs, 3 classes, 12 objects; histories of 1-2 operations (4 thorough) with up to 2 interruptions or migrations at any instruction; pairs of one local and one local or remote operation on two threads with 2 preemptions (3 thorough); sequentially consistent memory; symbolic item bases, batch sizes and amounts.")

P("C10", "Per-CPU caches conserve objects and stay within their budgets",
  "In the default per-CPU mode, every object freed into a CPU's cache is handed out again exactly once or returned to the middle tier, whatever is refilled, overflowed, stolen, shuffled, resized or drained in between, by this thread or a concurrent maintenance thread, and however the thread is interrupted or migrated. "
  "Each CPU's class capacities and slack always add up to its capacity, capacity only moves between CPUs and in total equals the configured limit per CPU, classes never exceed their maximum, the maximums fit the slab, byte and object counts are exact, and drained caches hold nothing and work again when used.",
  "histories interleavings inputs", "all histories of allocation, release and maintenance, burst sizes, interruptions, migrations and schedules within the bounds",
  "Which path serves a request depends on capacities that grow and shrink with the history on every CPU; the tests of the caches do not run here and could sample a few histories only.",
  "cpu_cache.h cpu_cache.cc internal/percpu_tcmalloc.h transfer_cache.h", [("CpuCache: refill, overflow, steal, shuffle, resize, drain", "tcmalloc/cpu_cache.h")],
  "the whole allocator with lifted restartable sequences on 2 CPUs (16 for giving slabs back); two classes among 8, 1024, 8192 and 262144 bytes; 1-3 steps of bursts of up to 12 objects or any maintenance call, from fresh, filled and drained states, limits 16 KiB-1 MiB; up to 2 interruptions; one maintenance call or two allocating threads with 1 preemption (2 thorough).")

P("C22", "CPU lists, shared caches and NUMA layout are read as the kernel describes them",
  "A CPU list in the kernel's format, however the file is delivered in pieces, is read as exactly the CPUs it names; a list naming an unsupported CPU, containing what no list can contain, or whose reading fails is refused, and reading always ends. "
  "The number of possible CPUs is the highest one plus one; two CPUs are in the same cache domain exactly when the kernel says they share the cache, domains are numbered densely; a CPU's memory partition is the one of its node, partitions partition the nodes, and NUMA awareness, binding mode and the current partition are as the environment asks and the machine allows.",
  "inputs configurations fault_sequences", "all lists, bytes, ways of splitting reads, read errors, groupings of CPUs and environment values within the bounds",
  "The result depends on the text of files of the machine the test runs on; tests see one machine and a few invented lists.",
  "internal/cache_topology.cc internal/cache_topology.h internal/numa.cc internal/numa.h internal/sysinfo.cc internal/sysinfo.h", [("ParseCpulist", "tcmalloc/internal/sysinfo.h"), ("NumaTopology", "tcmalloc/internal/numa.h"), ("CacheTopology", "tcmalloc/internal/cache_topology.cc")],
  "lists of up to 2 items with numbers of up to 4 digits, reads of 1, 2, 3 or 16 bytes; up to 3 arbitrary bytes, also at the end of a 15-byte number, with one read error at any call; up to 4 CPUs in up to 3 cache domains; 4 CPUs on up to 5 nodes, 6 environment values, 2 partitions, two read sizes.")

P("C24", "Hooks hear of every allocation, release and page movement exactly once",
  "Every registered new hook is called exactly once for each successful allocation through any function, with the pointer, the requested size (the capacity for functions that return it) and the usable size; every delete hook once for each release, with the pointer, the size the caller gave if any, and the usable size; a reallocation in place counts as both; failures and removed hooks produce no call, and a hook takes effect with the next call. "
  "Sampled allocations are reported once when made and once when released, with equal fields and a handle of their own. The list of hooks holds exactly what was added and not removed, up to seven, in any history and under concurrent changes. Page and central-list hooks report exactly the pages and objects that moved.",
  "inputs histories interleavings", "all sizes, functions, histories of adding and removing, and interleavings within the bounds",
  "Hooks bypass the fast paths, so each function has a second implementation; tests install hooks around a few calls only.",
  "malloc_hook.cc malloc_hook.h malloc_hook_invoke.h internal/hook_list.h internal/page_allocator_hooks.h internal/central_freelist_hooks.h tcmalloc.cc allocation_sampling.h", [("HookList", "tcmalloc/internal/hook_list.h"), ("MallocHook", "tcmalloc/malloc_hook.cc"), ("allocation and release with hooks", "tcmalloc/tcmalloc.cc")],
  "14 allocation functions with sizes in windows of 7-16 bytes at class boundaries and at 256 KiB, unsampled, sampled and guarded, per-thread and per-CPU, one or two hooks, realloc by up to 3 bytes; lists: up to 4 operations with symbolic values from fills of 0, 5 and 7, and two threads against a reader with 2 preemptions; pages: 3-4 operations at 256 KiB-2 MiB; central lists of three classes, 2-3 bursts.")

P("C31", "The usage numbers the allocator reports are those of the program",
  "At every quiet point, the bytes reported in use are exactly the sum of the usable sizes of the live allocations, the heap size is what is in use plus what the caches and the page heap hold, and the derived numbers (slack, local, physical, required, external fragmentation, peak, aliases) are what their documentation says of each other. "
  "Released bytes are reported under the reason they were released for and equal what the system was given; flushing a CPU's cache reports exactly what it held; live memory is recognised as owned and foreign memory is not; an unknown property is refused without touching the result.",
  "histories inputs", "all histories of allocation, release, returning memory and flushing caches, and all sizes, within the bounds",
  "The numbers are gathered from every tier and must agree after any history; the allocator is not part of the tests that run here.",
  "tcmalloc.cc global_stats.cc global_stats.h stats.h stats.cc central_freelist.h transfer_cache.h thread_cache.cc cpu_cache.h", [("GetNumericProperty", "tcmalloc/tcmalloc.cc"), ("ExtractStats, ExtractTCMallocStats", "tcmalloc/global_stats.cc")],
  "2-3 operations among allocation by up to 3 entry points, release of any, returning a symbolic number of bytes, flushing per-CPU caches; sizes in windows at a small class, at 256 KiB and at the hugepage size; unsampled and all sampled; per-thread and per-CPU front ends.")
