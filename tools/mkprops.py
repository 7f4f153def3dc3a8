#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one place to edit the texts)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    n = statement.count('. ') + 1
    assert n <= 3, (id, n)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['src/' + f for f in files],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Region bookkeeping is only touched under the region semaphore',
  'Every operation that hands out, takes back or lists blocks of the shared region works on the region bookkeeping only '
  'while it holds the region-wide semaphore, which it really acquired (an interrupted wait does not count) and gives '
  'back exactly once on every way out. A region reset never re-initialises the semaphore while it is held and then '
  'releases it as well.',
  ['schedules', 'histories'], 'all interleavings of processes allocating, freeing and listing blocks; all error paths',
  'The tests use the region from one process or from a few threads; a missing seize, a double release or a signal during the wait needs a particular interleaving.',
  ['sassim.cpp', 'sassim.h', 'sasanchr.h'],
  [('SASSeize/SASRelease around every block operation', 'src/sassim.cpp'), ('sem_wait/sem_post on the anchor semaphore', 'src/sassim.cpp')],
  [('anchor lists', 'free, used, uncommitted, region, allocated trees', 'src/sasanchr.h')], ['SASBlockAlloc', 'SASBlockDealloc', 'SASList*', 'SASReset'])

p('C02', 'Every object lock taken by an operation is released exactly once on every path',
  'Each library operation that takes the lock of a shared object releases the lock of that same object exactly once on '
  'every path out of the operation, including refused handles, failed expansion and not-found results. It never '
  'releases a lock it did not take.',
  ['inputs', 'schedules', 'histories'], 'all handles, argument values and object states, i.e. every path through each locking operation',
  'Tests take few of the error paths, and a leaked lock only shows when another process later needs it.',
  ['sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp', 'sasstringbtreeenum.cpp', 'sasindexenum.cpp', 'sphlogportal.cpp'],
  [('SASLock/SASUnlock pairs', 'all typed-object modules')], observe=['SASLock', 'SASUnlock'])

p('C03', 'Locking operations change objects only under the exclusive lock',
  'In the locking form of every operation on heaps, stacks, spaces, compound heaps, B-trees, indexes and contexts, the '
  'object is modified only while its lock is held in exclusive mode, and its contents are read only while its lock is '
  'held at least in shared mode.',
  ['schedules'], 'all interleavings of operations on one object by threads and processes',
  'No test runs conflicting operations with the timing needed to observe a torn update.',
  ['sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp', 'sasstringbtreeenum.cpp', 'sasindexenum.cpp'],
  [('SASLock(obj, WRITE) before the NoLock worker', 'all typed-object modules')])

p('C04', 'Lock-free forms of operations never take object locks',
  'The unlocked form of an operation (meant for callers that already hold the lock or own the object privately) never '
  'acquires or releases the lock of that object or of any of its parts, directly or through anything it calls with the '
  'same unlocked choice. Separate objects it only refers to (the name index of a context) keep locking themselves.',
  ['histories', 'schedules'], 'all calls of unlocked forms, through all callees',
  'A lock taken by an unlocked form is recursive for its own thread in the tests and only deadlocks or blocks with a second owner.',
  ['sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasstringbtreenode.cpp', 'sasindex.cpp', 'sasindexnode.cpp', 'sphcontext.cpp', 'sasstringbtreeenum.cpp', 'sasindexenum.cpp'],
  [('NoLock variants and the lock_on argument', 'node and tree modules')])

p('C05', 'Object locks are always taken in one order: base object before its parts',
  'Whenever an operation holds the lock of a part of a compound object (an expansion block or page heap) it never '
  'then waits for the lock of the base object; locks are taken from the base object outwards only, so two operations can never wait '
  'for each other.',
  ['schedules'], 'all interleavings of two operations on the same compound object',
  'A lock-order inversion only deadlocks when two threads interleave inside the window.',
  ['sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp'],
  [('lock nesting in Alloc, Free, NearAlloc, NearDealloc, Destroy', 'src/sascompoundheap.cpp, src/sasstringbtree.cpp, src/sasindex.cpp')])

p('C06', 'No operation touches a handle before checking it is a live object of its type',
  'Every public operation on a typed object (heaps, stack, space, queues, loggers, portal, B-tree, index, context) '
  'examines or changes the storage behind the handle only after the handle was found to carry the live-object signature '
  'and the type that operation serves (closely related subtypes may share one), the type its creator stamps. Otherwise it changes nothing and '
  'returns its failure value.',
  ['inputs', 'histories'], 'all handles: wrong type, destroyed, never initialised; all operations',
  'Tests almost only pass valid handles, so a missing or too weak check is invisible to them.',
  ['sasalloc.cpp', 'sasalloc.h', 'sastype.h', 'sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp', 'sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp', 'sphlogportal.cpp', 'sphlockfreeheap.cpp'],
  [('SOMSASCheckBlockSigAndType*', 'src/sasalloc.h'), ('initSOMSASBlock stamps signature and type', 'src/sasalloc.cpp')])

p('C07', 'Destroying an object makes its handle invalid before its storage is reused',
  'Each destroy operation invalidates the signature of the object (and of every block it owns) while it still owns the '
  'storage exclusively and before the storage is handed back to the region, and hands the storage back exactly once, '
  'so a later use of the old handle is refused.',
  ['histories', 'schedules'], 'all sequences in which a destroyed handle is used again or the storage is reallocated',
  'Tests destroy objects at the end and do not use them again, nor race the destroy.',
  ['sassimpleheap.cpp', 'sassimplestack.cpp', 'sassimplespace.cpp', 'sascompoundheap.cpp', 'sasstringbtree.cpp', 'sasindex.cpp', 'sphcontext.cpp', 'sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphlflogger.cpp', 'sphlogportal.cpp', 'sphlockfreeheap.cpp'],
  [('signature erased under SASLock, then SASBlockDealloc', 'every *Destroy')])

json.dump  # keep linters quiet
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import props2
    for a in props2.ALL:
        p(*a)
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
