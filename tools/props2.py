LOCKED = ['sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp']
ALL = [
 ('C08', 'An object lock excludes every other holder of the same address',
  'A request for the lock of an address returns only when it was granted: exclusive when there is no other holder, '
  'shared when there is no exclusive holder. While any thread holds or waits for the lock of an address, every other '
  'request and release for that address reaches the same lock, and the lock manager itself leaves none of its internal locks held on return.',
  ['schedules', 'histories'], 'all interleavings of lock and unlock requests by threads and processes on equal and colliding addresses',
  'The lock tests use few threads; binding races and leaked internal locks need a preemption between two statements or more readers than slots.',
  ['sasulock.cpp', 'sasulock.h', 'saslockl.cpp', 'sasmlock.cpp', 'saslock.cpp'],
  [('spin lock around the lock state, list lock around lookup', 'src/sasulock.cpp, src/saslockl.cpp'), ('same hash for lock and unlock', 'src/sasmlock.cpp')], [], ['SASLock', 'SASUnlock']),
 ('C09', 'Single-producer queues: each index has one writer side and is guarded',
  'In a single-producer single-consumer queue the producer operations advance only the head, the consumer operations only the '
  'tail, and each does so only after seeing that the entry it claims is really free (producer) or really complete (consumer). '
  'Otherwise it returns null or zero and changes nothing.',
  ['schedules', 'histories'], 'all interleavings of one producer and one consumer, queue empty, full and wrapping',
  'A test sees a few wrap-arounds at its own pace; a missing full/empty guard shows only when one side runs far ahead.',
  ['sphsinglepcqueue.cpp', 'sphdirectpcqueue.h'],
  [('SPHSinglePCQueueAlloc*/Get*/Free*', 'src/sphsinglepcqueue.cpp')]),
 ('C10', 'Queue and log entries are published after their contents, freed after use',
  'Marking an entry complete comes after a write barrier that orders the entry contents before it, and marking an entry free for reuse '
  'comes after a barrier that orders the reads of its contents before it; the entry header itself is changed by one store.',
  ['schedules'], 'all memory orderings the barrier API permits, all interleavings',
  'On strongly ordered test machines a missing barrier never shows.',
  ['sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp', 'sphlfentry.h', 'sphlflogentry.h', 'sphdirectpcqueue.h', 'sasatom.h'],
  [('sas_write_barrier/sas_read_barrier/sas_full_barrier', 'src/sasatom_*.h')]),
 ('C11', 'Multi-producer queues hand each entry to exactly one claimant',
  'In a multi-producer multi-consumer queue an entry is claimed, and the head or tail index is advanced by one stride with wrap to the start, only inside one section that excludes every other claimant '
  '(the exclusive lock of the queue, or a hardware transaction), except in the documented single-producer and single-consumer forms. A producer claims only an entry whose header is free and marks it allocated; '
  'a consumer claims only an entry that is allocated and complete and marks it as taken; the entry returned is the one claimed. An operation that claims nothing returns null and changes nothing, '
  'every path gives the queue lock back, and the empty and full tests report what the next claim would find.',
  ['schedules'], 'all interleavings of producers and consumers',
  'Double claims need two threads inside a few-instruction window.',
  ['sphmultipcqueue.cpp', 'sphmultipcqueue.h'], [('exclusive lock section around the claim in SPHMPMCQAllocStrideDirectSync and SPHMPMCQGetNextCompleteDirectSync', 'src/sphmultipcqueue.cpp')]),
 ('C12', 'Log space is reserved atomically and never beyond the log',
  'A logger reserves entry space only by an atomic update of its free pointer (except in the forms documented as unsynchronised), and a reserved entry lies completely inside the log area; a size that can never fit the log '
  'or the length field of an entry, and a stride allocation from a log without stride, are refused before anything is reserved; a reservation that does not fit yields null. The free pointer goes back to the start only by the '
  'reset operations and, in a circular log, once by the thread whose reservation crossed the end; no operation clears the circular option, and shared options change only atomically.',
  ['schedules', 'inputs'], 'all concurrent reservations, all sizes, log nearly full',
  'Overlapping or overrunning reservations need races or exact fill levels.',
  ['sphlflogger.cpp'], [('sas_fetch_and_add_ptr on next_free', 'src/sphlflogger.cpp')]),
 ('C13', 'New log and queue entries start incomplete and complete only on request',
  'The header of an entry handed out by an allocation carries its category, subcategory, length in allocation units and time-stamp mark, and says not complete (for queue entries: allocated and not complete), so that no reader treats it as '
  'finished before the owner completes it; the handle names that entry, its first free byte and the space that remains. Only the completion operations set the complete mark, the completeness queries report that mark, the log iterator stops at the '
  'first entry that is not complete, and handles given to readers describe the entry by its header.',
  ['schedules', 'histories'], 'all allocation and completion operations, readers at any moment',
  'Tests read after completion; a prematurely complete entry shows only to a concurrent reader.',
  ['sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp', 'sphlfentry.h', 'sphlflogentry.h'], [('entry header initialisation', 'src/sphlflogger.cpp, src/sphsinglepcqueue.cpp')]),
 ('C14', 'Entry field accessors stay inside the entry',
  'Adding a field to a log or queue entry, or reading one, through its handle uses the next free byte rounded up to the alignment of the field, touches or hands out memory only when padding and field fit in the remaining space, '
  'and moves position and remaining space together by exactly padding and field; the value is stored and read in full, and strings are measured only inside the remaining space. When the field does not fit the operation returns its failure value and leaves entry and handle as they were, and it refuses only then. '
  'Time stamp, process and thread are read only from an entry marked complete and time-stamped, category and subcategory only from a complete one.',
  ['inputs', 'histories'], 'all field types, sizes and fill levels',
  'Tests use a few field sequences with room to spare.',
  ['sphlfentry.h', 'sphlflogentry.h'], [('remaining-size test before each access', 'src/sphlfentry.h, src/sphlflogentry.h')]),
 ('C15', 'Log portal never reads or fills past its logger list',
  'The logger list of a portal lies inside its block and starts free; every read of it is below the count of added loggers and the count never exceeds the list size. The count and the current position change only by compare-and-swap, '
  'a slot is filled before it is counted, and adding to a full portal fails and leaves the portal as it was. The current position advances by one only when the current logger is full and a next one exists, and allocations come from the current logger or its successor after the move.',
  ['schedules', 'inputs'], 'all list sizes and concurrent get, add and put operations',
  'Out-of-range positions only appear with concurrent updates or a full list.',
  ['sphlogportal.cpp'], [('sas_compare_and_swap / fetch-add on list positions', 'src/sphlogportal.cpp')]),
 ('C16', 'Lock-free heap allocation state is only changed atomically',
  'The allocation and end-mark bitmaps of a lock-free heap are changed only by atomic operations once the heap is set up; units are claimed only by a compare-and-swap that clears bits seen set in the very value it compares against, '
  'and an offset is returned exactly when one succeeded and is the position of the claimed mask, which is as long as the size rounded up to units. The end mark is set after the claim and cleared before units are given back; freeing needs an end mark and an allocated first unit, '
  'stays in the word and reports double frees. Both bitmaps are used at the same word index, below the word count, and only for sizes above zero and below the most a word can give.',
  ['schedules', 'inputs'], 'all interleavings of allocations and frees, all sizes and addresses',
  'Lost bitmap updates need two threads in the same word at the same moment.',
  ['bitv.c', 'bitv.h', 'bitv_priv.h', 'sphlockfreeheap.cpp'], [('bitv_alloc/bitv_dealloc', 'src/bitv.c')]),
 ('C17', 'Queue and log areas lie inside their block and start clean',
  'The entry area of a queue or log lies inside the block it was given: it starts behind the header, ends at or before the end of the block and, when there is a stride, holds a whole number of strides; the stride is a multiple of '
  'the allocation unit. A missing buffer, or one too small for header and entry, is refused without storing into it, and creation initialises exactly what it allocated. A new queue or log starts with its indexes at the start of the area, a new or reset '
  'queue with a stride has only free entries whatever the block held before, and nothing but initialisation changes the bounds, the stride or the alignment mask.',
  ['inputs', 'histories'], 'all buffer sizes and strides, recycled blocks, all operations',
  'Tests create queues and logs of a few sizes on fresh blocks and do not write the whole payload of every entry.',
  ['sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp'],
  [('SPHSinglePCQueueInitInternal, SPHMPMCQInitInternal, SPHLFLoggerInitInternal', 'src/sphsinglepcqueue.cpp, src/sphmultipcqueue.cpp, src/sphlflogger.cpp')]),
 ('C18', 'Region addresses, offsets and sizes keep their full width',
  'Values that represent an address, an offset or a block size inside the shared region are never squeezed through a narrower integer on their way to '
  'the bookkeeping, so the library works the same in every part of a region larger than 4 GB. Offsets packed into keys keep every bit a region offset can have, and limits and shifts of sizes are computed at full width.',
  ['inputs', 'configurations'], 'all positions in a region of any supported size',
  'No test maps or fills the region beyond 4 GB.',
  ['sassim.cpp', 'ultree.cpp', 'freenode.c', 'sasalloc.cpp', 'sassimpleheap.cpp', 'sascompoundheap.cpp', 'sphlockfreeheap.cpp', 'bitv.c'], [('unsigned long arithmetic in the block allocator', 'src/sassim.cpp')]),
 ('C19', 'Segments are mapped shared at their fixed address from exclusively created files',
  'Every segment of the region is mapped shared and read-write from the file of that segment number at exactly the address that number stands for, in every process. '
  'The store file of a new segment is created exclusively (never truncating an existing one) and sized to a full segment before use.',
  ['configurations', 'histories', 'fault_sequences'], 'all joins, creations and on-demand attachments in all processes',
  'Tests run with one store, mostly from one process, where private or floating mappings look the same.',
  ['sassim.cpp', 'sasstname.c', 'sasshm.c'], [('mmap MAP_SHARED|MAP_FIXED, open O_EXCL, ftruncate', 'src/sassim.cpp, src/sasstname.c')]),
 ('C20', 'Failures of the operating system are reported and leak no descriptor',
  'When a system call needed to create, map, detach or remove store segments or shared memory fails, the operation reports failure to its caller, does not record success and removes what it had created before. File descriptors '
  'opened along the way are closed on every path.',
  ['fault_sequences'], 'every failing system call on every path', 'The tests never make a system call fail.',
  ['sassim.cpp', 'sasstname.c', 'sasshm.c', 'sasmsync.c', 'sasutil.c'], [('return code checks', 'src/sassim.cpp, src/sasstname.c, src/sasshm.c')]),
 ('C21', 'Names and paths never overrun their buffers',
  'Building segment store names, lock table names and copies of names and keys writes at most the size of the buffer that receives them, whatever the length of the caller\'s path or name. A store path too long (or empty) is refused.',
  ['inputs'], 'all store paths, names and segment numbers', 'Tests use short paths.',
  ['sasstname.c', 'sasshm.c', 'sassim.cpp', 'sphcontext.cpp', 'sasstringbtree.cpp', 'sasstringbtreenode.cpp', 'sasutil.c'], [('STORE_NAME_SIZE buffers', 'src/sasstname.c')]),
 ('C22', 'Freeing validates the address before changing free lists',
  'A free or deallocate operation on a heap or stack changes nothing unless the whole freed block lies inside the object behind its header, its size is above zero where one is given, and the address is aligned as allocations are; '
  'otherwise it reports the error. A page goes back only to the block it lies in, the stack pointer moves only to aligned positions inside the stack, and a lock-free heap gives back no units of its own header.',
  ['inputs'], 'all addresses given to free operations', 'Tests free only what they allocated.',
  ['sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sphlockfreeheap.cpp', 'sphcontext.cpp'], [('range and alignment checks', 'src/sassimpleheap.cpp')]),
 ('C23', 'Storage is given back with the size it was taken with',
  'Every piece of storage the library allocates for itself and later frees is freed with the same size it was allocated with, and block sizes are rounded the same way when taking '
  'and when returning blocks.',
  ['inputs', 'histories'], 'all sizes and object kinds', 'A size mismatch corrupts free space slowly; short tests never reuse the damaged range.',
  ['sasalloc.cpp', 'sassim.cpp', 'sasstringbtreenode.cpp', 'sasindexnode.cpp', 'sphcontext.cpp', 'sassimpleheap.cpp', 'sascompoundheap.cpp'], [('matching sizes at alloc and free sites', 'whole library')]),
 ('C24', 'Failed creation or expansion leaks nothing and uses no missing storage',
  'Whenever an internal allocation fails, the operation reports failure without using the missing storage and hands out no half-made object. Blocks already obtained for an '
  'object that could not be completed are given back.',
  ['fault_sequences', 'histories'], 'failure of each internal allocation, full expansion lists', 'Tests never exhaust the region.',
  LOCKED + ['sassim.cpp', 'sasalloc.cpp', 'sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp', 'sphlogportal.cpp', 'sphlockfreeheap.cpp', 'sasstringbtreenode.cpp', 'sasindexnode.cpp'], [('null checks after every allocation', 'whole library')]),
 ('C25', 'The shared region holds no process-private addresses',
  'Nothing the library stores in the shared region is the address of something that exists only in one process: stack variables, private heap memory, static data or functions. Names and keys that a caller hands in are copied, the region never refers to the caller\'s string.',
  ['configurations', 'histories'], 'every store into region storage by every operation', 'Within one process such pointers work; only a second process faults.',
  ['sassim.cpp', 'sasalloc.cpp', 'freenode.c', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp', 'sasmlock.cpp', 'sphlogportal.cpp'], [('same-address mapping, offsets from the region base', 'whole library')]),
 ('C26', 'B-tree and index counters move only with real changes, in both forms',
  'Each successful insertion or removal changes the element count and the modification count of a string B-tree or index exactly once, in the locking and the non-locking form alike; a refused or '
  'not-found operation changes neither, and replacing a value leaves the element count alone. The recorded smallest and largest key are renewed whenever the key inserted or removed requires it, and '
  'after a removal they are taken from the outermost leaf.',
  ['histories', 'inputs'], 'all keys present and absent, both forms', 'Tests insert and remove existing keys; duplicates and misses on both forms are not checked against the counters.',
  ['sasstringbtree.cpp', 'sasindex.cpp'], [('count and modCount updates in Put, Remove, Replace', 'src/sasstringbtree.cpp, src/sasindex.cpp')]),
 ('C27', 'Enumerations notice concurrent changes before using cached positions',
  'Every step of an enumeration over a string B-tree or index compares the modification count it remembers with the current one, under the lock of the tree in the locking form, '
  'before it uses the node position it cached, and re-seeks when they differ. It continues from its own copy of the last key, never from storage of the tree.',
  ['histories', 'schedules'], 'all interleavings of enumeration steps with insertions and removals', 'Tests enumerate quiescent trees.',
  ['sasstringbtreeenum.cpp', 'sasindexenum.cpp'], [('modCount comparison in EnumNext', 'src/sasstringbtreeenum.cpp, src/sasindexenum.cpp')]),
 ('C28', 'Loops make progress',
  'No search, scan or retry loop of the library comes round with everything that decides its end unchanged: every round moves a cursor or a count, changes the memory the end depends on, or reads it afresh, and a failed '
  'compare-and-swap is retried only with the value read again. So every list, tree, bit vector and log walk ends on a finite structure, whatever keys, sizes and free patterns it meets, and no operation hangs without another thread to wait for.',
  ['inputs', 'histories', 'schedules'], 'all keys, sizes, free patterns, tree shapes and lost races of every loop', 'A loop that fails to move on does so only for particular contents, such as a fragmented word with no fitting run, which the tests do not build.',
  ['bitv.c', 'ultree.cpp', 'freenode.c', 'sassim.cpp', 'sphlflogger.cpp', 'saslockl.cpp'], [('allocation scans of bitv_alloc and bitv_alloc_marked', 'src/bitv.c'), ('search loops of uLongTreeNode', 'src/ultree.cpp')]),
 ('C29', 'Atomic primitives are one indivisible instruction and order memory',
  'Each atomic primitive makes the update it stands for as one atomic read-modify-write of the full operand width, with the value it was given, and returns the documented value. Lock primitives return only with the lock '
  'taken from a free state, and neither the compiler nor the processor moves memory accesses across lock, unlock and barrier operations or leaves an update out. This holds on x86-64, i386, aarch64, riscv64, loongarch64 and powerpc64.',
  ['schedules', 'configurations'], 'all uses on all threads, every optimisation level and supported processor', 'A non-atomic or narrow update loses counts only under true concurrency or with large values; only one processor is tested.',
  ['sasatom.h', 'sasatom_generic.h', 'sasatom_x86_64.h', 'sasatom_i386.h', 'sasatom_riscv.h', 'sasatom_loongarch.h', 'sasatom_powerpc.h', 'sasulock.h'], [('lock-prefixed instructions, __sync/__atomic builtins', 'src/sasatom_x86_64.h, src/sasatom_generic.h')]),
 ('C30', 'Context name and address bindings are kept together',
  'A successful context operation that adds, renames or removes a name binding makes the matching change in both directions (name to address and address to name), and one that is refused leaves neither direction changed. '
  'The copy of the name that the address direction refers to is allocated and freed together with its binding.',
  ['histories', 'inputs'], 'all add, rename and remove operations, duplicate names, exhausted storage', 'Tests do not look at the reverse binding after failures.',
  ['sphcontext.cpp'], [('paired string B-tree and index updates', 'src/sphcontext.cpp')]),
 ('C31', 'Entries of tree nodes move as a whole',
  'Whatever an insertion, split, borrow, merge or removal does to the nodes of a string B-tree or an index, the key, the value and the subtree of an entry stay together: each entry that is moved, shifted or filled gets all of them, from the same source, in the same place. '
  'A new node gets its leftmost subtree. So a key that is still in a tree keeps its own value, and no subtree is lost when a tree is restructured.',
  ['histories', 'inputs'], 'all node sizes, positions and orders of insertions and removals, trees of any depth', 'Which restructuring steps run depends on the history; the tests reach few of them on inner nodes and do not compare every value afterwards.',
  ['sasstringbtreenode.cpp', 'sasindexnode.cpp'], [('PushIn, Split, MoveLeft, MoveRight, Combine, Successor, Remove', 'src/sasstringbtreenode.cpp, src/sasindexnode.cpp')]),
 ('C32', 'The fault handler only repairs faults inside the region',
  'The library fault handler attaches a segment only for addresses inside the region and only when that segment is allocated; any other fault is passed to the handler that was installed before, or ends the program or thread. It never silently returns from a fault it did not repair.',
  ['histories', 'fault_sequences'], 'all fault addresses, with and without a previous handler', 'Tests only fault on segments that exist.',
  ['sassim.cpp'], [('SASSigSegvHandler range check', 'src/sassim.cpp')]),
 ('C33', 'B-tree and index nodes hold their keys in order with matching subtrees', 'After any sequence of insertions and removals every key in a tree is found exactly once, in order, with the value last stored for it.',
  ['histories', 'inputs'], 'all operation sequences', 'Unbounded histories; tests use a few hundred keys in a few orders.', ['sasstringbtreenode.cpp', 'sasindexnode.cpp'], [('NodeSearch/PushIn/Split/Combine', 'src/sasstringbtreenode.cpp')]),
 ('C34', 'Live allocations never overlap', 'No two live allocations from the region, a heap, a stack or a space overlap, and freed neighbouring space becomes available as one piece again.',
  ['histories', 'inputs'], 'all allocation and free sequences', 'Unbounded histories and sizes.', ['freenode.c', 'sassim.cpp', 'ultree.cpp', 'bitv.c'], [('free node lists, buddy trees', 'src/freenode.c, src/sassim.cpp')]),
 ('C35', 'Queues deliver every completed entry once and in order', 'Each completed entry of a queue is delivered to exactly one consumer, unchanged, in completion-claim order per producer.',
  ['schedules', 'histories'], 'all interleavings', 'Tests observe a few schedules.', ['sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp'], [('entry state protocol', 'src/sphsinglepcqueue.cpp')]),
 ('C36', 'Time stamps and converted times are monotonic and consistent', 'The fast clock is monotonic per thread and its conversion to seconds agrees with the system clock within its documented accuracy.',
  ['inputs', 'configurations'], 'all clock values and frequencies', 'Tests sample a few moments.', ['sphgettime.c', 'sphgtod.c', 'sphtimer.c'], [('time base frequency conversion', 'src/sphgtod.c')]),
 ('C37', 'Every lock and queue wait ends when its condition comes true', 'A thread waiting for an object lock, the region semaphore or a queue entry continues once the holder releases it or the entry arrives.',
  ['schedules'], 'all fair schedules', 'Liveness over unbounded schedules.', ['sasulock.cpp', 'sassim.cpp'], [('semaphore posts on unlock', 'src/sasulock.cpp')]),
 ('C38', 'Objects survive process crashes and re-joining unchanged', 'Whatever was completed before all processes left or were killed is found unchanged by the next process that joins the region.',
  ['crash_points', 'histories'], 'all kill points', 'Tests leave the region in an orderly way.', ['sassim.cpp', 'sasmsync.c'], [('file-backed shared segments', 'src/sassim.cpp')]),
 ('C40', 'Near operations look for the object header at every block boundary',
  'The header lookup behind every near operation examines each boundary at which a block can start (every power of two from the smallest to the largest block) at or below the given address, nearest first. '
  'It returns the first boundary that carries the live-object signature, and nothing for an address outside the region or below no live header.',
  ['inputs'], 'all addresses and all block sizes', 'Tests use near operations on a few small heaps only.', ['sasalloc.cpp'], [('SASFindHeader', 'src/sasalloc.cpp')]),
 ('C42', 'A new object is complete whatever its storage held before',
  'Every operation that makes a header, node, list, enumeration or other object out of fresh or recycled storage sets each member that any operation later reads, on every path that keeps the object. '
  'A block given back and taken again therefore behaves as a never-used one.',
  ['histories', 'inputs'], 'all creation paths, all earlier contents of the storage', 'Tests create objects in a fresh region, where unset members happen to be zero.',
  ['sasstringbtree.cpp', 'sasindex.cpp', 'sascompoundheap.cpp', 'sphcontext.cpp', 'sphlflogger.cpp', 'sasulock.cpp'], [('Init functions, node initialisation', 'src/sasstringbtree.cpp, src/sasindex.cpp, src/sascompoundheap.cpp')]),
]
