"""Source of properties.jsonl and MANIFEST.json: python3 tool/props.py"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
U = 'src/umpire/'
PROPS, NA = [], []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                  'anchors': {'files': [(U + f).replace('umpire/../', '') for f in files], 'mechanism': [{'name': n, 'where': U + w} for n, w in mech]}})
    PROPS[-1]['_t'] = (technique, note)
    if na:
        NA.append({'property': id, 'reason': na})


P('P01', 'Address lookup finds the allocation that contains an address, and only that',
  'Looking up an address in the allocation registry yields a record exactly when the address is the start of a registered allocation or lies before its end, and then it is the newest record of the nearest registered start at or before the address. Any other address is reported as unknown by the throwing lookup and as absent by the non-throwing lookup and the membership query. A lookup never changes the registry.',
  ['inputs', 'histories'], 'every address and every set of registered allocations, including zero-byte allocations, one-past-the-end and interior addresses',
  'The tests look up a few fixed addresses of a handful of allocations; they do not vary adjacency, zero sizes or the boundary bytes over all histories.',
  ['util/AllocationMap.cpp', 'util/AllocationMap.hpp', 'util/MemoryMap.inl'],
  [('nearest-entry search', 'util/MemoryMap.inl findOrBefore'), ('containment test', 'util/AllocationMap.cpp doFindRecord')],
  'abstract interpretation of the lookup paths + exhaustive ordering table of the containment predicate')
P('P02', 'Registering and removing an allocation are exact inverses',
  'Registering an allocation adds exactly one record for its address, in front of any earlier records of that address. Removing an address returns and drops exactly its newest record, forgets the address with its last record, and fails without any change when the address is not registered. The reported number of records always equals registrations minus removals.',
  ['histories', 'inputs'], 'every interleaving of registrations and removals of equal and different addresses',
  'The tests register and remove a few records in fixed orders; the list and count bookkeeping must hold for every history.',
  ['util/AllocationMap.cpp', 'util/AllocationMap.hpp', 'util/MemoryMap.inl'],
  [('record list', 'util/AllocationMap.cpp RecordList::push_back/pop_back'), ('entry removal', 'util/MemoryMap.inl removeLast')],
  'abstract interpretation of insert/remove/clear; path-final states compared with the push/pop specification')
P('P03', 'Iterating the registry visits every record exactly once',
  'Walking the allocation registry from begin to end yields every registered record exactly once: addresses in ascending order, the records of one address newest first. The walk is independent of other iterators and of lookups made while it is under way. It ends exactly when all records have been visited, and an empty registry yields an empty walk.',
  ['histories', 'programs'], 'every registry content and every interleaving of several iterators and lookups with the walk',
  'The tests walk one small map with one iterator; interference between iterators and lookups through the shared cursor is never sampled.',
  ['util/AllocationMap.cpp', 'util/MemoryMap.inl'],
  [('outer/inner iterator', 'util/AllocationMap.cpp ConstIterator::operator++'), ('ordered-array cursor', 'util/MemoryMap.inl Iterator_::operator++')],
  'abstract interpretation of begin/end/increment/dereference; cursor typestate (re-positioned on the own entry before each step)')
P('P04', 'The address map is an ordered map from addresses to values',
  'Inserting into the address map adds an entry exactly when the address had none, says so in its result, and never replaces or destroys an existing value. Exact lookup yields that entry or end; nearest lookup yields the entry at the address or else the closest one before it. Erasing removes exactly that entry once, and the entry count always equals the number of entries.',
  ['inputs', 'histories'], 'every key (all bytes significant) and every history of insertions, lookups and erasures through every overload',
  'The tests use a few small integer keys per overload.',
  ['util/MemoryMap.hpp', 'util/MemoryMap.inl'],
  [('insert', 'util/MemoryMap.inl insert/doInsert'), ('lookup', 'util/MemoryMap.inl find/findOrBefore'), ('erase', 'util/MemoryMap.inl erase/doErase/removeLast')],
  'abstract interpretation of every map operation and overload down to the ordered-array primitives')
P('P05', 'The allocation registry can be used from several threads at once',
  'Registering, looking up, testing, removing and clearing in the allocation registry behave as if each happened at one instant, whatever other threads do at the same time. No such operation can block itself, and none leaves the registry locked, also when it ends in an exception.',
  ['schedules'], 'every interleaving of any number of threads using these operations',
  'The thread tests sample a few schedules; a missing or split critical section only shows under rare timing.',
  ['util/AllocationMap.cpp', 'util/AllocationMap.hpp'],
  [('registry mutex', 'util/AllocationMap.cpp insert/find/findRecord/remove/clear')],
  'lock-set dataflow over all paths of the public operations')
P('P07', 'The fixed-block pool never hands out a block twice or one outside its storage',
  'Every block handed out by the internal fixed-block pool lies inside storage the pool owns, is aligned to the block grid, and is disjoint from every block handed out and not yet given back. A block given back becomes available again without disturbing any other block; an address the pool does not own is refused with an error. All storage is given back exactly once when the pool is destroyed.',
  ['histories', 'inputs'], 'every sequence of takes and give-backs, any block size of at least four bytes, any number of blocks and pools',
  'The tests take and give back a few blocks in simple orders; free-list corruption needs particular histories.',
  ['util/FixedMallocPool.cpp', 'util/FixedMallocPool.hpp'],
  [('free list', 'util/FixedMallocPool.cpp allocInPool/deallocate'), ('ownership test', 'util/FixedMallocPool.cpp deallocate')],
  'abstract interpretation against the free-list transition system + ordering table of the ownership test')

P('P06', 'A thread-safe allocator can be used from several threads at once',
  'Allocating from and releasing to one thread-safe allocator behave as if each happened at one instant, whatever other threads do with any handle of that allocator at the same time: the wrapped allocator, its statistics and the registration of the result are only touched inside one critical section of that allocator. Zero-byte requests, which all allocators serve from one shared pool, are safe between different allocators as well. No operation can block itself, and none leaves a lock held, also when it ends in an exception.',
  ['schedules'], 'every interleaving of any number of threads and handles using allocate and deallocate, including failing and zero-byte requests',
  'The thread tests sample a few schedules of successful allocations.',
  ['Allocator.inl', 'Allocator.cpp', 'strategy/ThreadSafeAllocator.cpp', 'strategy/mixins/AllocateNull.cpp'],
  [('locking entry points', 'Allocator.inl allocate/deallocate'), ('handle construction', 'Allocator.cpp Allocator::Allocator'), ('shared zero-byte pool', 'strategy/mixins/AllocateNull.cpp')],
  'lock-set dataflow over all normal and exceptional paths of the handle operations and of handle construction')
P('P08', 'Allocator statistics equal what the history of allocations implies',
  'The current size of an allocator is the sum of the requested sizes of its live allocations, its allocation count is their number, and its high watermark is the largest current size there ever was. This holds for an allocator used directly and for one that serves as the parent of another; only pools that hand out a fixed capacity report their own usage instead. An allocation that fails, however it fails, changes none of them; a handle with tracking off contributes nothing.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of successful and failing allocations (named or not) and releases',
  'The tests read the counters after a few successful allocations; failing requests at every level of a hierarchy are not sampled.',
  ['strategy/AllocationStrategy.cpp', 'strategy/mixins/Inspector.cpp', 'Allocator.inl', 'Allocator.cpp'],
  [('as parent', 'strategy/AllocationStrategy.cpp allocate_internal/deallocate_internal'), ('through a handle', 'strategy/mixins/Inspector.cpp'), ('queries', 'Allocator.cpp getCurrentSize/getHighWatermark/getAllocationCount')],
  'abstract interpretation with fault injection at every allocating call; final counter values compared with the specification')
P('P16', 'Zero-byte requests and null releases are always well defined',
  'A request for zero bytes succeeds with a unique address that can be released through the same allocator and never reaches the memory resource; every other request reaches the allocator with exactly its size. A released address goes back to where it came from, the zero-byte pool or the allocator. Releasing the null address does nothing at all.',
  ['inputs', 'histories'], 'every size and address, for tracked and untracked, named and unnamed, thread-safe and ordinary allocators',
  'The tests try zero bytes and null on a few allocators in isolation.',
  ['Allocator.inl', 'Allocator.cpp', 'strategy/mixins/AllocateNull.cpp', 'strategy/FixedPool.cpp'],
  [('zero-byte dispatch', 'Allocator.inl allocate/deallocate'), ('zero-byte pool', 'strategy/mixins/AllocateNull.cpp'), ('membership test', 'strategy/FixedPool.cpp pointerIsFromPool')],
  'abstract interpretation of the handle operations; path-wise call specification + ordering table of the membership test')
P('P17', 'Every live allocation is registered with its address, size, owner and name',
  'From the return of a tracked allocation until its release the registry holds exactly one record for it, with the returned address, the requested size, the allocator it was requested from and the given name; queries by address answer from that record. A failed allocation leaves no record, and handles with tracking off never touch the registry. Releasing removes the record before the memory is given back, with the recorded size, and releasing through the wrong allocator throws, releases nothing and leaves the record as it was.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of allocations and releases through any handle, including failures and releases through the wrong allocator',
  'The tests check records for a few allocations; wrong-owner and failing paths are hardly sampled.',
  ['Allocator.inl', 'strategy/mixins/Inspector.cpp', 'ResourceManager.cpp', 'Allocator.cpp'],
  [('register/deregister', 'strategy/mixins/Inspector.cpp'), ('handle operations', 'Allocator.inl'), ('facade', 'ResourceManager.cpp registerAllocation/deregisterAllocation/findAllocationRecord/getSize')],
  'abstract interpretation pairing obtained pointer, registration, removal and release on every normal and exceptional path')
P('P27', 'Out of memory is reported to the caller, with allocator and size',
  'When an allocation cannot be satisfied, an error reaches the caller: a memory resource never hands a failed system call out as memory, no layer swallows or replaces the error, and none turns it into program termination. An out-of-memory error that leaves an allocator names the allocator it was requested from and the requested size, for named and unnamed requests alike.',
  ['fault_sequences', 'inputs'], 'every point at which an allocation can fail, at every level of a hierarchy',
  'The tests provoke one exhausted resource; failing at each point needs fault injection everywhere.',
  ['Allocator.inl', 'alloc/MallocAllocator.hpp', 'resource/NullMemoryResource.cpp', 'resource/FileMemoryResource.cpp', 'resource/HostSharedMemoryResourceImpl.hpp', 'strategy/FixedPool.cpp', 'strategy/QuickPool.cpp', 'util/error.hpp'],
  [('error annotation', 'Allocator.inl allocate'), ('system allocation', 'alloc/MallocAllocator.hpp allocate')],
  'abstract interpretation with an exception at every allocating call; effect analysis of noexcept functions')

P('P09', 'A wrapping allocator hands every request through unchanged',
  'Allocating from a wrapping allocator (named, thread-safe, size-limited, advised, prefetched, placed or naming) is exactly one allocation of the same size from the allocator it was constructed with, whose memory is handed out; releasing is exactly one release of the same address and size to that allocator. Advice, prefetch and placement are applied once, to exactly that memory with the configured device, and if that fails the memory is given back and the error reaches the caller. Every strategy answers platform, traits and parent for the allocator it was constructed with, keeps its name and id for life, and a naming shim never uses a name twice.',
  ['inputs', 'histories', 'fault_sequences'], 'every size and address, every wrapping strategy, every failing call',
  'The tests allocate and release through a few wrappers on the host; sizes handed back to the parent, failing operations and device settings are not observed.',
  ['strategy/NamedAllocationStrategy.cpp', 'strategy/ThreadSafeAllocator.cpp', 'strategy/SizeLimiter.cpp', 'strategy/AllocationAdvisor.cpp', 'strategy/AllocationPrefetcher.cpp', 'strategy/NamingShim.cpp', 'strategy/NumaPolicy.cpp', 'strategy/AllocationStrategy.cpp'],
  [('hand-through', 'strategy/NamedAllocationStrategy.cpp allocate/deallocate'), ('operation on the memory', 'strategy/AllocationAdvisor.cpp allocate'), ('unique names', 'strategy/NamingShim.cpp allocate')],
  'abstract interpretation with an exception at every call; path-wise comparison with the hand-through specification')

P('P10', 'A growing pool never hands out overlapping blocks and reuses what is given back',
  'Every block a growing pool hands out lies inside memory the pool holds from its parent, is at least as large as requested, and is disjoint from every other live block. Splitting and merging lose no memory: what is not handed out stays available, a block given back is merged with its free neighbours of the same chunk only, and a request that free memory can serve does not reach the parent. When the parent fails, the pool gives up its free chunks and tries once more before it reports the failure, and a failed request leaves it unchanged otherwise.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of allocations and releases of any sizes, with the parent failing at any point, for QuickPool and DynamicPoolList',
  'The tests run a few allocation patterns; a wrong neighbour link or merge condition needs a particular history to corrupt memory.',
  ['strategy/QuickPool.cpp', 'strategy/QuickPool.hpp', 'strategy/DynamicSizePool.hpp', 'strategy/DynamicPoolList.cpp'],
  [('chunk split and merge', 'strategy/QuickPool.cpp allocate/deallocate'), ('block lists', 'strategy/DynamicSizePool.hpp findUsableBlock/allocateBlock/splitBlock/releaseBlock')],
  'abstract interpretation of both pools; final state of every path compared with the split and merge transitions; inductive cursor facts for the list walks')
P('P11', 'The statistics of a growing pool equal what it holds',
  'The actual size of a growing pool is the memory it currently holds from its parent and its chunk count the number of chunks; its aligned size is the sum of the rounded sizes of its live blocks, and each watermark is the largest value there ever was. The releasable size and count are those of the wholly free chunks. A failed request changes none of them, and the queries for blocks and for the largest available block answer for the blocks there are.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of allocations, releases and coalesces, including failing ones, for QuickPool and DynamicPoolList',
  'The tests read the numbers after a few operations; drift needs particular split, merge and release histories.',
  ['strategy/QuickPool.cpp', 'strategy/DynamicSizePool.hpp', 'strategy/DynamicPoolList.cpp'],
  [('accounting', 'strategy/QuickPool.cpp allocate/deallocate/release'), ('accounting', 'strategy/DynamicSizePool.hpp allocateBlock/splitBlock/releaseBlock/freeReleasedBlocks')],
  'abstract interpretation; change of every statistic on every path compared with what the path did to the chunks; list folds by induction')
P('P12', 'Releasing a pool gives back exactly the memory that is not in use',
  'Releasing a growing pool gives back to the parent exactly the chunks no part of which is in use, each once, and leaves live blocks and partly used chunks as they are. Coalescing does the same, then obtains at most what is missing to the suggested size and keeps it available; if that fails the caller notices nothing. Destroying a pool releases what is free, also when the parent fails while giving memory back.',
  ['histories', 'fault_sequences'], 'every state of the pool reachable by allocations and releases, with the parent failing at any point',
  'The tests release a pool in one or two states; skipped, doubled or partly used chunks need particular fragmentation.',
  ['strategy/QuickPool.cpp', 'strategy/DynamicSizePool.hpp', 'strategy/DynamicPoolList.cpp', 'Allocator.cpp'],
  [('release loop', 'strategy/QuickPool.cpp release'), ('release loop', 'strategy/DynamicSizePool.hpp freeReleasedBlocks'), ('coalescing', 'strategy/QuickPool.cpp do_coalesce'), ('coalescing', 'strategy/DynamicSizePool.hpp coalesce')],
  'abstract interpretation of the release loops with a failing parent; per-iteration specification and cursor discipline')
P('P13', 'Alignment is honoured, within the memory obtained, and undone on release',
  'Every address handed out by an aligned allocator or a growing pool is a multiple of the configured alignment, and the whole block lies inside memory obtained from the parent. What is given back to the parent is exactly what was obtained for that address, same address and same size. A size that cannot be rounded up or padded is refused as out of memory, and an alignment an aligned allocator cannot honour is refused when it is constructed.',
  ['inputs', 'configurations'], 'every size up to the largest representable, every power-of-two alignment and every address the parent may return',
  'The tests use a few sizes and alignments; formulas fail at particular residues and near the end of the number range.',
  ['strategy/mixins/AlignedAllocation.inl', 'strategy/mixins/AlignedAllocation.cpp', 'strategy/AlignedAllocator.cpp', 'strategy/QuickPool.cpp', 'strategy/DynamicSizePool.hpp', 'strategy/DynamicPoolList.cpp'],
  [('rounding and padding', 'strategy/mixins/AlignedAllocation.inl'), ('header', 'strategy/AlignedAllocator.cpp allocate/deallocate')],
  'abstract interpretation down to the parent; size and address formulas decided by a complete table over a reduced machine word')

P('P14', 'A size limit and a fixed capacity are never exceeded',
  'The memory handed out by a size limiter and not yet released never exceeds its limit, and the memory handed out by a monotonic allocator never exceeds its capacity, for every request size up to the largest representable; a request that fits is served and one that does not is refused without changing anything. Monotonic blocks are disjoint parts of the one block obtained, which is given back whole at destruction. A failed or refused request leaves the accounting as it was, and a release lowers it by exactly the released size.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of requests and releases of any size, including sizes whose sum wraps and requests the parent refuses',
  'The tests try one request over the limit; wrap-around, the exact boundary and a failing parent are not sampled.',
  ['strategy/SizeLimiter.cpp', 'strategy/MonotonicAllocationStrategy.cpp'],
  [('limit', 'strategy/SizeLimiter.cpp allocate/deallocate'), ('capacity', 'strategy/MonotonicAllocationStrategy.cpp allocate')],
  'abstract interpretation; limit conditions decided by a complete table over a reduced machine word')
P('P15', 'Fixed-size, slot and mixed pools hand out each block once, inside their chunks',
  'A fixed-size pool hands out a block only if it is free and inside a chunk, marks exactly that block, and giving it back frees exactly that block; addresses outside every chunk are refused, and counts of free blocks, size in use, watermark and size held follow every step. Releasing gives back exactly the chunks without a live block, once, with the size obtained; a chunk whose size cannot be represented is refused. A slot pool never hands out a slot in use and obtains and gives back the memory of a slot once, and a mixed pool serves a request from a pool whose blocks are large enough and gives a block back to the pool it came from.',
  ['inputs', 'histories', 'configurations'], 'every history of takes and releases, every object size, number of objects and slot count',
  'The tests use a few object sizes and counts; bitmap index errors show at word boundaries and after particular orders of release.',
  ['strategy/FixedPool.cpp', 'strategy/FixedPool.hpp', 'strategy/FixedSizePool.hpp', 'strategy/SlotPool.cpp', 'strategy/MixedPool.cpp', 'strategy/StdAllocator.hpp'],
  [('bitmap', 'strategy/FixedPool.cpp allocInPool/deallocate'), ('chunks', 'strategy/FixedPool.cpp newPool/release'), ('slots', 'strategy/SlotPool.cpp'), ('dispatch', 'strategy/MixedPool.cpp')],
  'abstract interpretation; bitmap and address formulas of taking and giving back decided against each other by complete tables over bit positions')

P('P18', 'Copy, fill and prefetch touch exactly the bytes asked for, never beyond',
  'Copying moves exactly the requested number of bytes, or by default all bytes from the source pointer to the end of its allocation, from the source to the destination address, and filling sets exactly the requested bytes or the rest of the allocation. A request that would run past the end of the source or destination allocation, from any interior pointer and for any size, is refused before anything is written. The operation carried out is the one registered for the platforms of the allocators that own the two addresses, and an unregistered combination is reported as an error.',
  ['inputs', 'histories', 'configurations'], 'every pair of interior or start pointers, every size up to the largest representable, every pair of platforms',
  'The tests copy a few whole arrays; offsets, sizes at the boundary and wrapped sums are not sampled.',
  ['ResourceManager.cpp', 'op/MemoryOperationRegistry.cpp', 'op/MemoryOperation.cpp', 'op/HostCopyOperation.cpp', 'op/HostMemsetOperation.cpp'],
  [('bounds', 'ResourceManager.cpp copy/memset'), ('dispatch', 'op/MemoryOperationRegistry.cpp find')],
  'abstract interpretation of every overload; refusal conditions decided by a complete table over a reduced machine word; registration table compared with the dispatch keys')
P('P19', 'Reallocating or moving keeps the contents and never loses or leaks memory',
  'Reallocating memory yields memory of the new size from the same allocator, or from the given or default one for a null pointer, holding the old contents up to the smaller of the two sizes, and the old memory is released once; a size of zero releases the old memory and yields a zero-byte allocation. Moving memory to another allocator yields memory of the same size and contents there and releases the old, and moving to the owner changes nothing; interior pointers are refused. If any step fails the old memory stays as it was and what was newly obtained is given back.',
  ['inputs', 'histories', 'fault_sequences'], 'every pointer, size and owner, with every call failing',
  'The tests reallocate a few sizes on the host and never make the new allocation or the copy fail.',
  ['ResourceManager.cpp', 'op/HostReallocateOperation.cpp', 'op/GenericReallocateOperation.cpp'],
  [('reallocate', 'ResourceManager.cpp reallocate/reallocate_impl/move'), ('operation', 'op/GenericReallocateOperation.cpp transform'), ('operation', 'op/HostReallocateOperation.cpp transform')],
  'abstract interpretation with an exception at every call; obtain, copy, release sequence of every path compared with the specification')

P('P20', 'Names and ids identify exactly one allocator, and lookups find it',
  'Every allocator ever made has an id no other has had, and a name, resource name or alias that is already taken is refused without changing any table. Looking up a name, alias, id, resource type or the default yields exactly the registered allocator, making a resource on first use, and an unknown one is reported; removing an alias removes only that alias and never an allocator own name. Making an allocator checks and registers it in one critical section, and destroying the manager destroys the allocators newest first.',
  ['histories', 'inputs', 'schedules'], 'every order of registering, aliasing, looking up and removing, with any strings as names, and any interleaving of makeAllocator calls',
  'The tests look up a handful of names; clashes with resources not created yet, failed registrations and concurrent registrations are not sampled.',
  ['ResourceManager.cpp', 'ResourceManager.inl', 'ResourceManager.hpp'],
  [('registration', 'ResourceManager.inl makeAllocator; ResourceManager.cpp makeResource'), ('lookup', 'ResourceManager.cpp getAllocator'), ('aliases', 'ResourceManager.cpp addAlias/removeAlias')],
  'abstract interpretation; changes of the name and id tables on every path compared with the registration rule; names evaluated over a table; lock sets of makeAllocator')

P('P21', 'Every resource name leads to the memory it names, on its platform',
  'Names and types of memory resources correspond one to one, every advertised name is served by the factory of its own kind, and an unknown name or type is reported. The resource made has the name, id and traits asked for, or the default traits of its kind, and its platform and traits tell what kind of memory it is. Memory is reported as accessible exactly from the platforms that can reach it, an allocator answering as the resource at the bottom of its chain.',
  ['inputs', 'configurations'], 'every resource name and type, every platform, every depth of wrapped allocators',
  'The tests ask for a few resources; a name answered by the wrong factory or a wrong platform shows only for particular names and configurations.',
  ['resource/MemoryResourceTypes.hpp', 'resource/MemoryResourceRegistry.cpp', 'resource/HostResourceFactory.cpp', 'resource/FileMemoryResourceFactory.cpp', 'resource/HostSharedMemoryResourceFactory.cpp', 'resource/NullMemoryResourceFactory.cpp', 'Umpire.cpp'],
  [('names', 'resource/MemoryResourceTypes.hpp resource_to_string/string_to_resource'), ('choice', 'resource/MemoryResourceRegistry.cpp makeMemoryResource'), ('reach', 'Umpire.cpp is_accessible; isAccessibleFrom of every resource')],
  'abstract interpretation; tables of names, factories and accessibility evaluated completely over the enumerations and the advertised names')
P('P24', 'Memory resources return to the system exactly what they took, once',
  'A block of a memory resource is at least as large as requested and is given back to the system once, with the address, length and file it was obtained with, however allocations and releases are ordered. File-backed blocks each have a file of their own, which is removed with the block or, for blocks never released, when the resource is destroyed. A failing step leaves no descriptor, file, mapping or record behind, and a block already unmapped is never unmapped again.',
  ['inputs', 'histories', 'fault_sequences'], 'every request size, order of allocation and release, and every system call failing',
  'The tests allocate a few blocks and never make open, ftruncate, mmap or remove fail.',
  ['resource/FileMemoryResource.cpp', 'resource/NullMemoryResource.cpp', 'resource/DefaultMemoryResource.inl', 'alloc/MallocAllocator.hpp', 'alloc/PosixMemalignAllocator.hpp'],
  [('record', 'resource/FileMemoryResource.cpp allocate; resource/NullMemoryResource.cpp allocate'), ('give-back', 'resource/FileMemoryResource.cpp deallocate/~FileMemoryResource')],
  'abstract interpretation down to the system calls; what every path obtains and records compared with what is given back; rounding decided by a complete table over a reduced machine word')


P('P23', 'Shared memory: one block per name, never overlapping, under one lock',
  'In a shared memory segment, allocating a new name yields a free block with room for what was asked, which overlaps no other live block, and allocating an existing name yields the same memory with one more reference, never a smaller block; the memory becomes free again exactly when the last reference is released. All processes change the segment only under its mutex, which is released on every way out, and a request that cannot be met changes nothing and is reported. Exactly one process initialises a segment, all others wait until it has, and a set-up that fails leaves neither mapping, descriptor nor a half-made segment behind.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every request size and name, order of allocation and release by any number of processes, and every system call failing',
  'No test in the baseline runs the shared memory resource, let alone with several processes or failing calls.',
  ['resource/HostSharedMemoryResourceImpl.hpp', 'resource/HostSharedMemoryResource.cpp', 'Umpire.cpp'],
  [('new-block', 'resource/HostSharedMemoryResourceImpl.hpp allocate_named/findUsableBlock/splitBlock'), ('release', 'resource/HostSharedMemoryResourceImpl.hpp deallocate/releaseBlock'), ('segment', 'resource/HostSharedMemoryResourceImpl.hpp impl/map_shared_memory_segment')],
  'abstract interpretation of the segment allocator: lock typestate of the process-shared mutex on every exit, inductive facts about the offset-linked lists, value-number specification of every link and size written, and a complete table over a reduced word for the block layout')
P('P22', 'A pool coalesces exactly when its heuristic asks for it',
  'The percent heuristic of a growing pool asks for coalescing exactly when at least that share of the bytes the pool holds is releasable (100: all of them, 0: never) and refuses a percentage outside 0 to 100; the block heuristic asks exactly when at least that many blocks are releasable. The size asked for is the pool\'s actual size, or its aligned high watermark for the high-watermark variants. A pool asks the heuristic it was made with once after each block given back and once on request, and coalesces to the answer exactly when it is not zero.',
  ['inputs', 'histories'], 'every percentage and block count, every set of free and used blocks, tracked and untracked pools',
  'The tests use three heuristics on a fixed allocation pattern of a tracked pool.',
  ['strategy/QuickPool.cpp', 'strategy/DynamicPoolList.cpp'],
  [('heuristics', 'strategy/QuickPool.cpp percent_releasable/blocks_releasable'), ('heuristics', 'strategy/DynamicPoolList.cpp percent_releasable/blocks_releasable'), ('use', 'strategy/QuickPool.cpp deallocate/coalesce')],
  'abstract interpretation of every heuristic applied to a pool, decided over a table of pool states; data flow of the answer into coalescing')
P('P26', 'Pointer and leak queries answer exactly what is registered',
  'Of two registered addresses the first overlaps the second exactly when the second allocation starts inside the first and ends beyond it, and contains it exactly when the second starts and ends inside the first; an unregistered address is an error. The records reported for an allocator, also as its leaks, are exactly the registered ones it owns, each once and unchanged. An allocation registered by the user is found with the record given until it is deregistered; coalescing an allocator reaches the pools that support it and is an error for everything else.',
  ['inputs', 'histories'], 'every pair of allocations (equal, nested, adjacent, empty) and every registry content',
  'The tests query a few fixed layouts.',
  ['Umpire.cpp', 'Umpire.hpp'],
  [('overlap, containment', 'Umpire.cpp pointer_overlaps/pointer_contains'), ('records', 'Umpire.cpp get_allocator_records/get_leaked_allocations'), ('external allocations', 'Umpire.cpp register_external_allocation/deregister_external_allocation'), ('coalescing', 'Umpire.cpp try_coalesce/coalesce')],
  'abstract interpretation down to the registry operations; predicates decided over all orderings of the bounds')
P('P30', 'A typed allocator obtains exactly the bytes of its elements',
  'A typed allocator asked for n elements obtains exactly n times the element size from its allocator, once, and refuses a count whose size in bytes cannot be represented. Releasing hands exactly that address back to the same allocator. Two typed allocators, of whatever element types, compare equal exactly when they use the same allocator, and one made from another uses the same allocator.',
  ['inputs'], 'every element count, also around each overflow boundary, and every element type',
  'The tests allocate small vectors of one type.',
  ['TypedAllocator.inl', 'TypedAllocator.hpp'],
  [('element count to bytes', 'TypedAllocator.inl allocate'), ('comparison', 'TypedAllocator.inl operator=='), ('rebinding', 'TypedAllocator.inl TypedAllocator')],
  'abstract interpretation of instances with several element sizes; byte count decided around every overflow boundary')
P('P29', 'The event log records each operation once, as it happened, and reads back',
  'With event recording on, every completed allocation (named or not), release, copy, memset, move, reallocation, coalescing, change of the default allocator and creation of an allocator or resource is recorded once (a reallocation: its request and its result) with the addresses, sizes and allocators it really used; with recording off nothing is recorded. Every event reaches the log file as one line of JSON holding exactly its values, whatever text is in it, and reads back as the same event. Recording opens the file itself and does not make the operation fail because of the text in an event.',
  ['inputs', 'histories'], 'every operation, operand and name, recording on and off, any event first',
  'The event tests insert a handful of plain events; names with quotes, line ends or invalid UTF-8 and a store used first for an allocation are not tried.',
  ['event/event.hpp', 'event/json_file_store.cpp', 'event/event_json.hpp', 'event/event_store_recorder.cpp', 'Allocator.inl', 'ResourceManager.cpp', 'ResourceManager.inl'],
  [('operations', 'Allocator.inl do_allocate/do_deallocate, ResourceManager.cpp copy/move/reallocate'), ('builders', 'event/event.hpp builder'), ('store', 'event/json_file_store.cpp insert/open_store'), ('reader', 'event/event_json.hpp to_json/from_json')],
  'abstract interpretation of each operation with the event builder abstract; format strings parsed and their arguments traced by data flow')

P('P28', 'The C and Fortran interface does exactly what the C++ call it names does',
  'Every function of the C interface makes exactly the one C++ call it stands for, on the object its handle refers to, with its arguments in order (strings with their given length, allocators as the objects of their handles), and returns the result of that call. What it hands out is marked with the destructor that releases it; releasing deletes it exactly once, as what it is, and text copied out is cut to the room given.',
  ['inputs'], 'every function of the interface, every argument and handle',
  'The C tests call a few functions with host allocators and zero-terminated names; the length-taking variants used from Fortran are not called.',
  ['interface/c_fortran/wrapAllocator.cpp', 'interface/c_fortran/wrapResourceManager.cpp', 'interface/c_fortran/wrapUmpire.cpp', 'interface/c_fortran/utilUmpire.cpp'],
  [('allocators', 'interface/c_fortran/wrapAllocator.cpp'), ('resource manager', 'interface/c_fortran/wrapResourceManager.cpp'), ('releasing', 'interface/c_fortran/wrapUmpire.cpp umpire_SHROUD_memory_destructor'), ('text', 'interface/c_fortran/utilUmpire.cpp umpire_ShroudCopyStringAndFree')],
  'abstract interpretation of every C function with the C++ interface abstract; call, receiver, arguments and result compared position by position')

P('P25', 'Output reaches every stream it is meant for, and nothing else',
  'A character written to the log or error stream reaches every attached stream exactly once, flushing flushes them all, and the failure of any of them is reported; streams are attached and detached independently, and after finalization none is referenced. A message is written, once and with its level, place and text, exactly when its level is at or below the chosen one, which is the level the environment names, whatever its case, or else Info. Output files get names that were seen not to exist, made of directory, base name, process and a number; no file or directory is made when logging is off, and what cannot be opened or made is reported as an error.',
  ['inputs', 'histories'], 'every combination of attached streams and of their results, every pair of levels, every result of the system calls',
  'The tests write through working streams only, at one level, into the current directory.',
  ['util/OutputBuffer.cpp', 'util/OutputBuffer.hpp', 'util/Logger.cpp', 'util/Logger.hpp', 'util/io.cpp', 'util/io.hpp'],
  [('streams', 'util/OutputBuffer.cpp overflow/sync'), ('levels', 'util/Logger.cpp setLoggingMsgLevel/Logger'), ('files', 'util/io.cpp make_unique_filename/initialize_io/finalize_io')],
  'abstract interpretation with finite tables over stream results and levels; set-up decided on every path of the system-call results')


P('P31', 'The ordered array keeps every key it was given, in order',
  'The ordered array under the registry holds exactly the keys inserted and not deleted, finds each by exact search, and steps through them in ascending order. Growing, splitting and shrinking its nodes never loses, repeats or reorders a key.',
  ['inputs', 'histories'], 'every sequence of insertions, deletions and searches over every set of keys',
  'The tests insert a few patterns of keys; the node kinds chosen and the splits taken depend on the whole key set.',
  ['../tpl/umpire/judy/judy.c'], [],
  na='Its nodes are untyped words: the kind of a node is in tag bits of the pointer to it, counts are in neighbouring nodes, and which bytes of a node are keys or values depends on both. No dataflow or shape analysis in reach bounds these runtime quantities; the contract in judy.h is a stated assumption of P01 to P04 instead.')
P('P32', 'Device memory operations move the bytes they are given',
  'Copying, filling, prefetching and advising device memory through the CUDA, HIP, SYCL and OpenMP back ends has the effect of the corresponding host operation on exactly the bytes given.',
  ['inputs', 'configurations'], 'every pair of platforms with a device and every range',
  'Needs devices; the tests of this configuration run on the host only.',
  ['op/CudaCopyOperation.cpp'], [],
  na='The headers and compilers of the device back ends are not installed, so this code cannot be type-checked here, and what the vendor calls do to device memory is not in the source. What the host decides about these operations (which one is chosen, with which arguments) is part of P18.')


def write():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    na = {x['property'] for x in NA}
    m = {'version': 1, 'setup_cmd': 'bash /verif/tool/build.sh', 'checks': [], 'not_applicable': NA}
    for p in PROPS:
        if p['id'] in na:
            continue
        t, note = p['_t']
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3 /verif/check.py {p['id']} --tier quick",
                            'thorough_cmd': f"python3 /verif/check.py {p['id']} --tier thorough", 'evidence_file': f"evidence/{p['id']}.json",
                            'technique': 'static analysis: ' + t, 'level': 'other',
                            'level_note': note or 'Every abstract path of the named functions of the current tree satisfies the rule; loops are summarised by an arbitrary iteration, so the verdict covers all inputs and histories. Trusts the front end (clang), the models of the standard library and C primitives, and the assumptions listed in the evidence file.'})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    assert len({p['id'] for p in PROPS}) == len(PROPS)
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert len([x for x in p['statement'].split('. ') if x]) <= 3, (p['id'], 'sentences')
        assert set(p['quantifier']['over']) <= {'schedules', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}, p['id']
        assert os.path.exists(os.path.join(V, 'rules', p['id'].lower() + '.py')) or p['id'] in na, p['id']
        for f in p['anchors']['files']:
            assert os.path.exists('/repo/' + f), f


write()
