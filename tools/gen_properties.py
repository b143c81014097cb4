#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

TX = "inc/Tecs_transaction.hh"; ST = "inc/Tecs_storage.hh"; LK = "inc/Tecs_lock.hh"; EN = "inc/Tecs_entity.hh"
EV = "inc/Tecs_entity_view.hh"; PM = "inc/Tecs_permissions.hh"; OB = "inc/Tecs_observer.hh"; TR = "inc/Tecs_tracing.hh"; EC = "inc/Tecs.hh"; CC = "src/Tecs.cc"

prop("C01", "Each transaction reads one stable, atomic snapshot",
 "Everything a transaction can read of committed data (component values and presence, entity existence, entity lists, previous values, global components) belongs to one single committed state that existed at some instant while the transaction was being started, and stays unchanged until the transaction ends. Another transaction's changes are therefore seen completely or not at all, across every component type and entity it touched.",
 ["schedules"], "all interleavings of 2 (and selected 3) threads running every pair of permission shapes over two components, a global and the entity set, at the granularity of atomic operations",
 "The threading tests run a handful of loops under whatever schedule the OS picks and only compare two counters; a torn multi-component commit needs a switch inside a few-instruction window.",
 [TX, ST, LK], [("all-or-nothing acquisition with rollback", TX+": Transaction constructor"), ("commit locks for every written type are taken before any buffer is swapped", TX+": ~Transaction")],
 [("readers/writer words", "reader count and writer phase of one component type", ST)], ["Entity::Get/Has/Exists, Lock::Get/Has/Entities/EntitiesWith"])

prop("C02", "Writers exclude each other; no update is lost",
 "Two transactions that may both write the same component type (or may both add and remove entities) never overlap their writing, so a read-modify-write inside a transaction is always based on the latest committed value. After any number of concurrent transactions the committed state equals the result of applying every one of them exactly once in some order consistent with real time.",
 ["schedules"], "all interleavings of 2-3 threads each running 1-2 read-modify-write, add/remove or create/destroy transactions on overlapping types",
 "The tests count increments under OS-chosen schedules; a lost update in the window between buffer copy and unlock shows up in a tiny fraction of schedules.",
 [TX, ST], [("exclusive writer word held until the write buffer is resynchronised", ST+": WriteLock/WriteUnlock"), ("write buffer refresh after swap", TX+": ~Transaction")],
 [("read/write buffers", "double-buffered component data", ST)], ["component values and entity sets after all threads joined"])

prop("C03", "Commits become visible exactly when a transaction ends",
 "No other transaction ever observes a value, entity, component or global that was written by a transaction that has not begun to end. Once ending a transaction has returned, every transaction started afterwards on any thread observes all of its changes, and changes are never observed and then later un-observed.",
 ["schedules"], "all interleavings of writers and successive readers over two components, globals and entity add/remove",
 "Tests check visibility only sequentially or after long sleeps; dirty or stale reads need a specific placement of the reader relative to the commit.",
 [TX, ST, LK, EN], [("writes go to the write buffer, reads to the read buffer", EN+": Get/Set"), ("swap under commit lock", TX+": ~Transaction")], [], ["values read by transactions ordered by real time"])

prop("C04", "Starting and ending transactions can never deadlock or lose a wakeup",
 "For any combination of permissions requested in any order by any number of threads, as long as every started transaction is eventually ended, every attempt to start or end a transaction eventually completes. In particular no thread is left waiting when the transactions it conflicted with have all ended, and there are no cyclic waits.",
 ["schedules"], "all interleavings (every pair of permission shapes over two components plus add/remove, selected triples), with the blocking waits modelled so that only a notify wakes a waiter; both the C++20 wait/notify build and the C++17 yield build",
 "A lost wakeup or lock-order cycle hangs only under one specific interleaving; the tests would simply pass on every other run.",
 [TX, ST], [("block only while holding nothing, otherwise roll back", TX+": Transaction constructor"), ("notify on every release", ST+": ReadUnlock/CommitUnlock/WriteUnlock")], [("readers/writer words", "lock state that waiters sleep on", ST)], ["threads blocked with nothing left to wake them"])

prop("C05", "Readers never wait for uncommitted writers; disjoint work never waits",
 "Starting a transaction that only reads a component never waits for another transaction that holds write permission on that component but has not begun to end, and a writer may start while readers are active. Transactions whose permissions do not overlap never wait for each other, and ending a transaction never waits because of component types it had permission to write but did not write.",
 ["schedules", "programs"], "every pair of permission shapes whose documented semantics say they must not conflict, with one transaction parked at every point of its body while the other runs to completion under all interleavings",
 "Tests measure this only with sleeps and timings for one or two shapes.",
 [TX, ST], [("read lock is refused only during a commit", ST+": ReadLock"), ("unwritten write permissions are released early", TX+": ~Transaction")], [("write-accessed flags", "which types were really written", TX)], ["completion of the second transaction while the first is parked"])

prop("C06", "A committing writer is not overtaken by new readers",
 "Once a transaction has begun committing written components and is waiting for existing readers, no transaction started after that point can obtain read access to those components until that commit has been published. The commit completes as soon as the readers that were already active have ended, however many new readers keep arriving.",
 ["schedules"], "all interleavings of one active reader, one committing writer and one or more arriving readers",
 "Writer starvation needs a sustained adversarial arrival order that OS scheduling never reliably produces.",
 [ST, TX], [("commit phase blocks new readers", ST+": CommitLock/ReadLock")], [("writer phase", "free, writing or committing", ST)], ["what a reader started after the writer began waiting observes"])

prop("C07", "Correct use from many threads is free of data races and memory errors",
 "When every access goes through a transaction's own permissions, no two threads ever access the same memory conflictingly without synchronisation, and no access touches freed, unallocated or out-of-range memory. This includes entity and component lists, storage growth while others read, global components, creation of instances, and the automatic copy and release of component values.",
 ["schedules"], "all interleavings of the whole transaction menu in pairs and triples with happens-before race detection that honours the memory orders in the code, on every non-atomic access",
 "The tests are not run under a race detector and only see schedules that the OS produces; a missing acquire or release is invisible on x86.",
 [ST, TX, LK, EN], [("acquire/release on the lock words", ST), ("buffers are swapped only under commit lock", TX)], [], ["every plain load and store performed by library code"])

prop("C08", "Current and previous views inside a transaction are exact",
 "Inside a transaction, current reads (values, component presence, entity existence, lists) show the transaction's own writes so far applied to the snapshot, while previous reads and read-only subsets keep showing the snapshot unchanged, in every order of operations. A component gained again after being removed starts from its default value unless a value was supplied.",
 ["histories", "inputs"], "all operation sequences up to a bounded depth from several start states, over small sets of entities and component types, for every kind of lock",
 "Tests follow a few hand-picked sequences; interactions such as remove-then-get, destroy-then-previous-read or add on a recycled entity are a combinatorial space.",
 [EN, LK, TX], [("double buffers selected by the lock's permission bits", EN+": Get/Has/Exists"), ("reset on removal and on first access", LK+": RemoveComponents")], [], ["Get, GetPrevious, Has, Had, Exists, Existed, ReadOnlySubset"])

prop("C09", "Entity handles identify exactly one entity, forever",
 "Every handle returned by entity creation differs from every handle issued before it by the same instance (until a generation counter wraps) and from handles of other instances, is valid exactly from its creation until its destruction commits, and never becomes valid again. Handles that are null, stale, from another instance or out of range are reported as not existing, and creation fails with an exception rather than issuing a wrong handle when the index type is exhausted.",
 ["histories", "configurations"], "all create/destroy/commit histories up to a bounded depth, allocation batch sizes 1..3, narrow index and generation types, several instances",
 "Recycling bugs appear only after particular create/destroy/commit patterns and at allocation boundaries that the default batch of 1000 hides.",
 [LK, EN, TX], [("free list rebuilt at commit with increased generation", TX+": PreCommitAddRemoveMetadata"), ("batch allocation and overflow check", LK+": NewEntity")], [("free entity queue", "handles available for reuse", EC)], ["NewEntity, Exists, Existed, Destroy"])

prop("C10", "Entity lists are exact at commit and stable while iterated",
 "After a commit, the list of entities and each list of entities with a component contain every matching entity exactly once and nothing else. Inside a transaction that adds or removes, lists additionally reflect its own additions immediately while entities removed in that transaction leave an invalid placeholder, and a list being iterated never skips, repeats or corrupts an entry however the transaction modifies entities during iteration.",
 ["histories"], "all operation sequences up to a bounded depth including create, destroy, add, remove and re-add performed in the middle of iterating each list",
 "Tests iterate while mutating in two or three fixed patterns.",
 [TX, LK, EN], [("append on add, null placeholder on remove, rebuild on commit", TX+": PreCommitAddRemove"), ("position of each entity in the lists", ST+": validEntityIndexes")], [], ["Entities, EntitiesWith, PreviousEntities, PreviousEntitiesWith"])

prop("C11", "Committed state over any history equals a sequential model",
 "For every sequence of transactions of any mix of permissions, the state visible to a later transaction equals that of a simple map from entities to component values to which the same operations were applied. This holds regardless of how many entities are stored or how sparsely a component is used, and values written in one transaction are preserved by later transactions that do not change them.",
 ["histories"], "all sequences of small transactions (read-only, write-only, add/remove, no-op) up to a bounded depth over dense and sparse populations",
 "A stale write buffer only shows two or more transactions later and only for particular mixes (sparse/dense copy, untouched types); tests exercise a few.",
 [TX], [("write buffer refresh: bulk or per-entity copy", TX+": ~Transaction")], [("read/write buffers", "must be identical between writers", ST)], ["full state dump at the start of each transaction"])

prop("C12", "Global components follow the same transactional rules",
 "Global components obey the same rules as entity components: presence and value changes made under add/remove permission become visible at commit, writers without that permission can only change values of existing globals, and previous views keep the snapshot. A read-only access never creates a global component; accessing a missing one for reading is rejected, and a global that was removed and re-added starts from its default value.",
 ["histories"], "all operation sequences up to a bounded depth over two global components mixed with entity operations, for every kind of lock",
 "Tests cover add, set and remove once each, with a single global component.",
 [LK, TX], [("global presence bits double-buffered with the entity metadata", LK+": Get/Set/Unset"), ("published with the metadata commit", TX+": ~Transaction")], [("global read/write metadata", "presence of globals", EC)], ["Lock::Get/GetPrevious/Set/Has/Had/Unset"])

prop("C13", "Invalid use is rejected by an exception and changes nothing",
 "In the default (checked) build, accessing, setting, unsetting or destroying through a null, stale, foreign or out-of-range entity, or accessing a component the entity lacks without permission to add it, throws an exception. The failed call leaves every observable part of the state, in this and later transactions, exactly as it was, and the transaction remains usable.",
 ["inputs", "histories"], "every operation applied to every kind of invalid target at every point of all short operation histories",
 "Tests probe a few operations with a few invalid handles, and do not compare the full state afterwards.",
 [EN, LK], [("existence and presence checks before mutation", EN)], [], ["exceptions and full state afterwards"])

prop("C14", "Observers receive exactly the committed changes, once, in order",
 "An observer receives, for every committed transaction after it was registered, one event for each entity (or component) that differs in existence between the states before and after that commit, removal carrying the last committed value and addition carrying the newly committed value. Events are delivered exactly once per observer, grouped in commit order, none are produced for changes that cancel out inside one transaction, and stopping one observer affects no other.",
 ["histories"], "all sequences up to a bounded depth of add/remove operations, commits, registering, stopping and polling, for entity, component and global-component observers",
 "Tests use one fixed script per event type; interactions between several observers, stop/re-register and cancelled changes are not covered.",
 [TX, OB, LK, EC], [("diff of old and new metadata at commit", TX+": PreCommitAddRemove*"), ("queue fan-out", EC+": ObserverList")], [("event queues", "per-observer pending events", EC)], ["Observer::Poll"])

prop("C15", "Observers are correct when polled and changed concurrently",
 "While other threads add and remove entities and components, an observer polled from any transaction returns only events of transactions already committed when the polling transaction started, complete per commit, in commit order and without loss or duplication. Registering and stopping observers concurrently takes effect atomically at a transaction boundary.",
 ["schedules"], "all interleavings of a committing thread, a polling thread and a registering/stopping thread",
 "The tests poll from the same thread that committed.",
 [TX, OB, EC], [("events are published inside the metadata commit section", TX+": ~Transaction")], [], ["Observer::Poll in concurrent transactions"])

prop("C16", "Permissions are enforced at compile time, exactly",
 "Code compiles if and only if the lock it uses holds the needed permission: reads need read or write permission on that component, writes need write permission, and creating, destroying, adding or removing needs add/remove permission. A lock converts implicitly to another exactly when the target's permissions are a subset of its own, including through nested and dynamic lock types, and a read-only subset can never write.",
 ["programs"], "every permission set over three components (including a global) crossed with every operation and with every other permission set",
 "The tests can only contain code that compiles, and assert a few of the type relations.",
 [PM, LK, EN], [("is_read_allowed / is_write_allowed / is_add_remove_allowed", PM), ("static_assert on each accessor", EN)], [], ["acceptance or rejection by the compiler"])

prop("C17", "Nested transactions are detected exactly",
 "Starting a transaction on an instance for which the current thread already has one active throws without acquiring anything, and the outer transaction keeps working. Transactions on other instances or threads, and transactions started after the previous one ended, are never rejected, up to the configured number of simultaneous transactions per thread, beyond which starting one throws.",
 ["histories", "schedules"], "all sequences of starting and ending transactions on several instances in any nesting order up to a bounded depth, with a small per-thread limit, and across two threads",
 "Tests nest once on one instance.",
 [TX, CC], [("per-thread list of active instances", TX+": BaseTransaction")], [("activeTransactions", "instances with a live transaction on this thread", CC)], ["StartTransaction throwing or not"])

prop("C18", "Entity views behave as exact read-only ranges",
 "An entity view behaves as the exact sub-range of the entity list it was made from: forward, reverse and random access iteration, size, emptiness, indexing, iterator arithmetic and nested sub-views all agree with the underlying list. In the checked build every access or sub-view outside the range throws and never reads outside the list.",
 ["inputs"], "every list length, start, end, offset, count and index up to a small bound, and nested sub-views",
 "Tests take two or three views and iterate forward.",
 [EV], [("bounds checks and iterator arithmetic", EV)], [], ["EntityView and its iterators"])

prop("C19", "Entity handles are consistent plain values",
 "An entity handle survives conversion to and from its integer form, and equality, ordering, hashing and validity are mutually consistent: equal handles hash equally, exactly one of less, equal or greater holds, and a handle is null exactly when its generation is zero. The instance identifier, generation and index packed in a handle can each be recovered independently for all field widths.",
 ["inputs", "configurations"], "all handles (or all boundary combinations for wide types) for several widths of index, generation and identifier",
 "The tests use a few constants with the default widths.",
 [EN], [("packing helpers and comparison operators", EN)], [], ["Entity conversions, comparisons, std::hash, identifier helpers"])

prop("C20", "Performance traces are well formed under any schedule",
 "A trace taken with performance tracing enabled contains, for each resource, exactly the lock and transaction events that occurred while it was enabled, in a legal order per thread and never more than the configured maximum, without disturbing transaction behaviour. Starting twice, stopping without starting and re-starting behave as documented, and the CSV export has one column group per resource and one line per event row. The external trace hooks are called once each per transaction: starting before it waits for any lock, started once it has all of them, ending before it gives any up and ended after the last one is released.",
 ["schedules", "histories"], "all interleavings of two threads running transactions while traced, all start/stop sequences, and tiny event capacities",
 "The tests do not look at trace contents at all.",
 [TR, ST, TX, EC], [("event slots reserved by atomic counter", TR+": TraceInfo")], [("event buffer", "bounded trace buffer", TR)], ["StartTrace/StopTrace/SaveToCSV"])

prop("C21", "A transaction ends exactly when its last lock handle is gone",
 "A transaction stays active, with its permissions held and its snapshot stable, as long as any lock derived from it (copies, subsets, dynamic or read-only locks) exists, and ends and commits exactly once when the last of them is destroyed, in whatever order they are destroyed and also when unwinding from an exception. Its identifier is the same through every derived lock and unique among transactions.",
 ["histories"], "all sequences up to a bounded depth of copying, converting, moving and destroying lock handles, mixed with writes and probes from a second thread",
 "Tests hold one lock at a time and rely on scope exit.",
 [LK, TX], [("shared ownership of the transaction object", LK)], [("use count", "number of live lock handles", LK)], ["visibility to others, UseCount, GetTransactionId"])

prop("C22", "All build configurations have the same semantics",
 "For programs that stay within the rules, every supported configuration (checked or unchecked mode, header-only or library, C++17 or C++20, tracing on or off, any allocation batch size and entity field width) produces the same observable results. The one built-in difference is that header-only builds have no nested-transaction detection and no instance or transaction identifiers.",
 ["configurations", "histories"], "all valid operation histories up to a bounded depth, executed in each configuration and compared with the same reference model",
 "Only two configurations run the test suite, with the same few scripts.",
 [LK, EN, TX, ST, EC, "CMakeLists.txt"], [("configuration macros", EC)], [], ["full observable state after each operation"])

prop("C23", "Component values are released promptly and exactly once",
 "Every component value the library creates, copies or replaces is destroyed exactly once, and after a transaction that removed a component or destroyed its entity has ended, no copy of the removed value remains alive inside the instance (apart from undelivered observer events). Destroying the instance, its observers and their events releases everything.",
 ["histories"], "all operation sequences up to a bounded depth with a component type that counts live instances and distinct live payloads",
 "One test checks one shared_ptr after one removal.",
 [LK, TX, EN], [("reset on removal in the write buffer and full refresh of the other buffer", LK+": RemoveComponents")], [], ["live-instance counters"])

prop("C24", "Runtime lock permissions never exceed the transaction's",
 "Asking a dynamic lock for a set of permissions succeeds only if the underlying transaction really holds them and always succeeds if the lock it was made from held them, and a lock obtained this way behaves exactly like one obtained by static conversion. A read-only subset only ever shows the snapshot and grants no write or add/remove rights through any chain of conversions.",
 ["programs", "histories"], "every (transaction, intermediate lock, dynamic base, requested) permission combination over three components, and all reads and writes through the resulting locks",
 "Tests try four combinations.",
 [LK, PM], [("permission bitsets", LK+": DynamicLock")], [("permissions", "runtime permission bits of a lock", LK)], ["DynamicLock::TryLock, ReadOnlySubset, Subset"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
