NOTES = {
'C01': 'Region bookkeeping = the anchor fields and the trees hanging off it.  Public block and list operations are followed through SASSeize/SASRelease; every read or write of bookkeeping must happen between them and every exit must have released.',
'C02': 'Locks are named by access path (argument, base pointer, i-th element of the block list).  Loops that lock a whole list are matched with the loops that unlock it by their symbolic range.',
'C03': 'An access summary of each function says which parts of which handle it may read or write; in a locking form all accesses behind the handle must fall where the lock is held, writes in WRITE mode.',
'C04': 'The lock effect of every function is computed per value of its lock-choice argument; unlocked forms must have none (references to separate, self-locking objects are listed as assumptions).',
'C05': 'Collects (held, acquired) pairs over the call graph and asks that a part is only locked while its base is.',
'C06': 'For every exported operation taking a handle: on each path, no access behind the handle before a successful signature and type check of it, and the documented failure value on the paths where it failed.',
'C07': 'Destroy operations: signature cleared before storage is handed back, never touched after; list pages given back before the block that holds the list.',
'C08': 'The lock manager itself (saslock.cpp / sasmlock): grant decisions, holder counts, queue handling, retry after an interrupted wait.',
'C09': 'Index arithmetic of the single-producer queues: who writes head and tail, the guard in front of each advance, wrap-around at the same bound everywhere.',
'C10': 'Publication order: content, release fence, header word; consumption order: header word, acquire fence, content, header clear.',
'C11': 'Queue lock typestate: index read, entry test and header claim in one critical section.',
'C12': 'Reservation by one atomic add of the rounded size; the returned address comes from the value the add returned; the end test uses the same size.',
'C13': 'Bit-exact content of entry headers as stored by allocation and completion operations.',
'C14': 'Every accessor in the interface headers: remaining space is tested before reading or writing, and handle position, remaining count and copied length agree.',
'C15': 'Logger list of a portal: every index is compared with the count, positions only move to valid ones.',
'C16': 'Bitmap words are only changed by atomic primitives; the mask claimed matches the units returned and marked.',
'C17': 'Linear relations between block size, header size, entry size, count and the start/end pointers that initialisation stores.',
'C18': 'Every trunc, narrow store and bit-field insertion whose source is an address, offset, size or pointer-wide field.',
'C19': 'Flags, protection, offset, address, size and descriptor of every mmap; flags of every open; ftruncate before success; segment number, name, address and size belong together at every call site.',
'C20': 'Typestate of descriptors, created files, created shared memory and segment addresses; a success exit needs proof, from the branches taken, that each call on the path succeeded.',
'C21': 'Capacity (variable or symbolic allocation size) against length written.  Formatting into a buffer of the caller puts the size on every call site.',
'C22': 'Facts in front of each hand-over to a free list must imply containment of the whole piece.',
'C26': 'The net change of each counter per path is computed from the stores (value stored minus value read, with the change made before the read), so the order, the spelling and helpers do not matter.',
'C27': 'Positions, counts and keys kept in the enumeration are followed through loads and phis; the comparison has to be known equal where a kept position is used.',
'C23': 'Sizes are compared as expressions: an expression is brought to a normal form (loads by their address, sums flattened, casts dropped) and matched with the one the storage was taken with, with the field it is recorded in, with the length of the very text or key given back, or with the constant of the class.  Size tables (SASSOMAlloc and SASSOMDestroy) are compared as step functions of their parameter.  That nothing overwrote a text or a size field between taking and giving back is an assumption.',
'C24': 'Exhaustion is not provoked; every path with a null result is followed instead.  The 31 known findings are one weakness: a B-tree or index whose block (and every block it may expand to) has no room for another node or key copy goes through the missing storage in the middle of a restructuring, under its lock (shown by filling a fixed size tree with long keys: SIGSEGV), and a lock table without room for another node does the same.  Repairing it needs reserving the storage of a whole restructuring beforehand, which is no small change; the places are listed one by one so that any other place is still reported.',
'C25': 'Integers are not followed.  Storage is taken for private only when its address is (stack, static, private heap, enumeration handles); everything reached through a parameter or a loaded address counts as shared.  SASNearAlloc gives private storage next to private objects by design, and is read that way.',
'C28': 'Only the variables, memory and calls in the slice (data and control dependences) of the exits of a loop count as progress; writes count when they may reach what the slice reads.  A loop that changes something which decides its end in every round is accepted: termination as such (a falling measure) is not shown, nor that a wait for another thread is answered.  Paths are followed with linear facts about the counters, so that a scan that stops at its last position is told from one that does not.',
'C29': 'No machine instruction is executed: inline assembly is read as text (mnemonic, lock prefix, suffix, operands, clobbers) and compiler atomics from the IR.  Each target is compiled freestanding with stub system headers; powerpc branches for compilers before gcc 4.7 (load-reserve loops in assembly) are not read.  A weak compare-and-swap may fail without reason, which the callers\' loops allow.',
 'C30': 'Every tree operation whose outcome is open is followed both as successful and as refused; a lookup on the path, in either direction, tells that a binding exists.',
'C31': 'Moves are judged per round of the innermost loop and per path, so a part that is shifted by a loop of its own is matched with the loops of the other parts.  That positions are the right ones (an entry inserted where the search found its place, a node filled only to its capacity, the order of keys) is not decided here; see C33.',
'C32': 'Exits of the fault handler are classified by what the path did: attached, handed to the saved handler, or ended.',
'C40': 'The candidate addresses that SASFindHeader examines are computed abstractly and compared with the power-of-two block sizes the region hands out.',
'C42': 'Fresh storage is a root; stores through it (by byte offset, through helpers via must-store summaries, memset and copies) are compared with every fixed-offset load of the library through the same structure type. Elements of variable arrays are left to the counters that guard them.',
}
FALSE = [
 ('C42', 'the root member of expansion blocks of a tree is never set and never read (operations go through the base block), so it is not asked for there; a helper that stores nothing on a path has refused its arguments'),
 ('C22', 'a first version asked for the exact comparison shape of the size test; it now proves containment from any comparisons on the path'),
 ('C18', 'counts of elements and lengths of names were first treated as region quantities; they are not and are stated as an assumption'),
 ('C20', 'mapping the guard page is not counted as a call whose failure must be reported: it is a safety net, not a segment'),
 ('C21', 'moving the unread rest of a buffer inside the buffer (sphtimer.c) is not a copy into unknown storage'),
]
