#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'SPSC circular buffer delivers exactly the written byte/element sequence',
 'For every capacity and every sequence of operations through any of the buffer\'s writing and reading interfaces (copying write/read, in-place segment pointers with haveWritten/haveRead, actor callbacks, all offsets), the elements read are exactly the elements written, in order, without loss, duplication or corruption. '
 'At every step dataAvailable() equals the number of written but unread elements, dataAvailable() plus spaceAvailable() equals the capacity, the contiguous segment pointers and sizes describe only free (resp. filled) storage, and a partial write or read transfers exactly min(requested, possible) elements. '
 'Committing more than is available is impossible through the copying interfaces, whose return values always tell the exact number of elements transferred.',
 ['histories', 'inputs', 'configurations'],
 'all buffer sizes, element types, and finite sequences of write/read/pointer/actor operations with every fill level and wrap position',
 'TestCircBufferSCSP pushes a few fixed patterns; it cannot visit every (capacity, read offset, fill, request) combination nor mixed use of interfaces around the wrap point.',
 ['src/CircBufferSCSP.h'],
 [('CircBuffer::write/read and segment pointers', 'src/CircBufferSCSP.h'), ('CircBuffer haveWritten/haveRead offset wrap', 'src/CircBufferSCSP.h')])

prop('C02', 'SPSC circular buffer is lossless, race-free and wakes waiters under any schedule',
 'With one producer thread and one consumer thread, under every interleaving, the consumer obtains the producer\'s elements in order and never sees an element before it has been completely written, and the producer never overwrites an element that has not been completely read. '
 'A thread blocked waiting for data or for space is woken once the other side provides it (or once its stop condition holds and is announced), so no schedule deadlocks. '
 'No schedule contains a data race on the buffer\'s storage or counters.',
 ['schedules'],
 'all thread interleavings of one producer and one consumer over small capacities, with blocking, polling and actor interfaces mixed',
 'The existing test runs two free-running threads a fixed number of times: the OS visits a tiny, unrepeatable part of the schedule space and x86 hides missing ordering.',
 ['src/CircBufferSCSP.h'],
 [('locking wrapper and condition variables', 'src/CircBufferSCSP.h')])

prop('C03', 'LRU cache keeps exactly the most recently used entries alive',
 'For every capacity and every history of insert, get and clear, the cache itself keeps alive exactly the most recently used entries up to its limit: an entry is findable while it is among them, or while someone outside still holds it, and get returns the identical object last inserted under that key. '
 'A get or insert makes its entry the most recently used one; an entry pushed out of the limit is released at once unless held elsewhere, and is not resurrected after its last owner is gone. '
 'No history leaks an entry, frees one early or invalidates a returned pointer.',
 ['histories', 'configurations'],
 'all limits and finite histories of insert/get/clear with arbitrary external holding and releasing of returned pointers',
 'TestLRU runs one scripted history; eviction order, demotion and promotion interact over long histories with externally held entries.',
 ['src/LRU.h'], [('strong list, weak list and key map', 'src/LRU.h')])

prop('C04', 'Identifier pool never hands out an identifier that is in use',
 'At every moment the identifiers held by live holders of one pool are pairwise distinct and inside the range of the identifier type, whatever the history of reservations, recycles, holder moves, swaps and destructions, from one thread or from several. '
 'An identifier becomes available again exactly when its holder is destroyed or overwritten, reserving fails with the pool\'s reservation exception exactly when every identifier of the range is in use (leaving the pool usable), and a holder stays valid after the pool object is gone. '
 'Concurrent use is free of data races and deadlocks.',
 ['histories', 'schedules', 'configurations'],
 'all identifier types (each pool covers the whole range of its type), reservation/recycling histories and interleavings of several threads',
 'TestIdentifierPool checks a short sequential script; uniqueness is an invariant over unbounded histories and interleavings, and exhaustion of wide ranges needs targeted histories.',
 ['src/IdentifierPool.h'], [('State::reserve/recycle', 'src/IdentifierPool.h'), ('IdHolder move and destruction', 'src/IdentifierPool.h')])

prop('C05', 'A future observes exactly the outcome its promise was given',
 'For every history over promises, futures, packaged tasks, ready-made futures and continuations, the single outcome given to a promise (value, exception, or broken promise when it is destroyed or abandoned unfulfilled) is what its future delivers, whether observed by waiting and taking, or by a continuation attached before or after fulfilment. '
 'Each continuation runs exactly once, chained continuations run in chain order and receive their predecessor\'s outcome, and futures returned by continuations are unwrapped to their final outcome. '
 'Every value and every callable handed over is destroyed exactly once.',
 ['histories', 'fault_sequences'],
 'all finite histories of promise/future/packaged-task operations, chains of continuations of every kind, with throwing callables and throwing value types',
 'TestFuture exercises selected examples of each operation; chains mixing late/early attachment, exceptions and abandonment grow combinatorially.',
 ['src/Future.h'], [('SharedState', 'src/Future.h'), ('continuation dispatch', 'src/Future.h')])

prop('C06', 'Futures lose no wake-up, outcome or continuation under any schedule',
 'When one thread fulfils (or abandons) a promise while others wait on, poll, move or attach a continuation to its future, then under every interleaving every waiter returns, the continuation runs exactly once with the right outcome, and readiness once observed stays. '
 'Everything the fulfilling thread did before fulfilling is visible to whoever observes the outcome, and no schedule has a data race, a use after free or a deadlock.',
 ['schedules'],
 'all interleavings of a fulfilling thread with waiting, polling and continuation-attaching threads',
 'Races between setting a value and attaching a continuation occur in windows of a few instructions that free-running tests practically never hit.',
 ['src/Future.h'], [('SharedState mutex/condition variable and continuation hand-over', 'src/Future.h')])

prop('C07', 'Timeout thread runs each task once, never early, in due order, never after stop',
 'For every set of scheduled tasks and every schedule, a task is run at most once, never before its due time, and tasks due at different times that are both pending run in order of due time; a task still scheduled when its time has passed is eventually run as long as the thread is not stopped, without the thread sleeping on past its due time, also when an earlier task is added while the thread is already sleeping. '
 'Once stopped, no task other than one the worker had already picked starts, pending tasks are discarded without being run, and stopping or destroying always returns. '
 'No schedule has a data race or deadlock.',
 ['schedules', 'histories'],
 'all sets of tasks with absolute, relative and past due times, all interleavings of scheduling, stopping and the worker, under virtual time',
 'TestTimeoutsThread measures real time for a handful of timeouts; it cannot choose the interleaving of a scheduling call with the worker going to sleep.',
 ['src/TimeoutsThread.h', 'src/MicrosecondTime.h', 'src/Durations.h'], [('task heap and condition variable', 'src/TimeoutsThread.h')])

prop('C08', 'Shared resource map: one live object per key, dropped with its last user',
 'At every moment at most one live object exists per key, every request for a key with a live object returns that very object, and otherwise one new object is constructed with the given arguments; the object is destroyed and its entry removed when its last user releases it, also if construction throws or several threads request and release the same key concurrently. '
 'size(), empty(), iteration and waiting for emptiness agree with the set of live objects, and objects may outlive the map object itself where the interface allows it. '
 'No schedule has a data race, use after free, lost wake-up or deadlock.',
 ['schedules', 'histories', 'fault_sequences'],
 'all histories and interleavings of acquire/release/iterate/wait over arbitrary keys, with throwing constructors',
 'The window between the last reference being dropped and the entry being erased is a few instructions wide; TestSharedResourceMap only samples it by chance.',
 ['src/SharedResourceMap.h'], [('getResource / deleter', 'src/SharedResourceMap.h')])

prop('C09', 'Object trees free every child exactly once, whichever side goes first',
 'For every history of creating parents and children, the children of a parent are exactly those created under it that still exist: destroying a child detaches it from its parent, and destroying a parent destroys all its remaining children. '
 'Every node is destroyed exactly once, no child is visited or freed after its destruction, and concurrent creation, traversal and destruction of siblings has no data race or deadlock.',
 ['histories', 'schedules'],
 'all creation/destruction histories of multi-level trees and interleavings of sibling operations',
 'There is no unit test for this header; correctness is about every order of destruction.',
 ['src/ObjectTree.h'], [('ParentNode/ChildNode registration', 'src/ObjectTree.h')])

prop('C10', 'Bit vector behaves as a sequence of bits',
 'For every block type and every history of construction, copying, moving, assignment, push/pop, resize, append, set/reset/flip (of single bits and of all), bitwise operators, comparison and serialization, a bit vector equals the mathematical bit sequence: its size, individual bits and equality depend only on the bits inside its size, never on left-over bits in its last block (only bits newly exposed by resize() have unspecified values). '
 'Serialization followed by deserialization into a vector of the same size gives an equal vector, a truncated message or one for another size is refused, and appending gives the concatenation. '
 'Checked accesses out of range are refused, and no operation reads or writes outside the vector\'s blocks.',
 ['histories', 'inputs'],
 'all operation sequences at all sizes, especially around block boundaries, for block types of 8 to 64 bits',
 'There is no unit test for this header; off-by-one-block errors appear only for particular size/offset remainders after particular histories.',
 ['src/BitVector.h'], [('BitVec block arithmetic', 'src/BitVector.h')])

prop('C11', '128-bit unsigned integers compute exactly modulo 2^128',
 'For all operands the arithmetic, bitwise, shift, increment/decrement, comparison and conversion operations of the library\'s 128-bit unsigned integer give the mathematical result modulo 2^128 (negative integers convert as the native unsigned types do, comparisons compare the converted values), division by zero is reported by the documented exception, and stream output prints the exact value in the stream\'s base (decimal, octal or hexadecimal) and letter case. '
 'Helper arithmetic used for it (double-width multiplication, value demotion) is exact for all inputs.',
 ['inputs'], 'all pairs of 128-bit operands, all shift counts below 128, all stream bases and letter cases',
 'No unit test exists; carry and borrow errors hide in one in 2^64 operand patterns that only boundary-biased generation hits.',
 ['src/uint128_t.h', 'src/integer_demotion.h'], [('uint128_t operators', 'src/uint128_t.h')])

prop('C12', 'Fixed-width big integers compute exactly modulo their width',
 'For every bit width and every storage block type, the arithmetic, bitwise, shift, bit-access, comparison, conversion and stream output operations of the fixed-width unsigned integer template give the mathematical result modulo 2^width, independent of the chosen block type. '
 'Bits beyond the width never influence any result.',
 ['inputs', 'configurations'], 'all widths (not only multiples of the block size), block types of 8 to 64 bits, all operand values and shift counts',
 'No unit test exists; errors depend on the combination of width remainder, block type and carry pattern.',
 ['src/uint_t.h'], [('uint_t block arithmetic', 'src/uint_t.h')])

prop('C13', 'String views answer every query as the viewed string would',
 'For all character sequences (including embedded NULs and empty views) and all arguments, a string view\'s element access, size, sub-views, prefix/suffix removal, trimming, comparison, search (forward/backward, character, substring, any-of/none-of sets), prefix/suffix tests, copying, conversion to a string, hashing and stream insertion (with width, fill and alignment) give the same answer as the corresponding operation on the viewed character sequence, and never touch memory outside it. '
 'Out-of-range positions raise the documented error exactly when the position exceeds the size.',
 ['inputs'], 'all strings over small and large alphabets, all positions/counts including npos and out-of-range',
 'TestStringView checks selected strings; search semantics have many boundary positions per overload.',
 ['src/StringView.h'], [('BasicStringView', 'src/StringView.h')])

prop('C14', 'Packed structures lay out and round-trip every field without padding',
 'For every list of trivially copyable field types, a packed structure occupies exactly the sum of the field sizes, each field lies at the sum of the sizes before it, reading a field returns the last value written to it whatever else was written, and writing one field changes no byte of any other. '
 'Accessors over foreign buffers, offset/size queries and unaligned pointers and references agree with this layout at any alignment; unaligned pointers follow the laws of ordinary pointer arithmetic and comparison.',
 ['inputs', 'programs', 'histories'], 'field lists of arbitrary types, values, alignments of the underlying buffer and sequences of field writes',
 'The unit tests fix a few structures on aligned storage; layout laws quantify over all type lists and alignments.',
 ['src/PackingInfo.h', 'src/PackedStruct.h', 'src/PackedStructAccessor.h', 'src/ConstPackedStructAccessor.h', 'src/UnalignedPointer.h', 'src/UnalignedReference.h', 'src/ConstUnalignedReference.h', 'src/PackedRawData.h'],
 [('field offset computation', 'src/PackingInfo.h'), ('UnalignedPointer arithmetic', 'src/UnalignedPointer.h')])

prop('C15', 'Dynamically sized packed structures compute sizes and offsets exactly',
 'For every mix of fixed and dynamically sized fields and all dynamic sizes, total, minimal and maximal sizes and the offset of each field equal those of the packed concatenation of the fields, the validity check accepts exactly the size combinations within the declared bounds of the fields, and sizes too large to be represented saturate, so that constructing such a structure fails with the standard allocation error. '
 'Reading back any field gives what was last written, writes do not disturb other fields, and copies and moves preserve the contents.',
 ['inputs', 'histories', 'programs'], 'field lists with any number of dynamic fields, all size tuples including zero and overflowing ones, all write sequences',
 'The unit tests use a few fixed size tuples; offset arithmetic and overflow checks quantify over all of them.',
 ['src/DynamicPackingInfo.h', 'src/DynamicPackedStruct.h', 'src/MaybeDynamicPackingInfo.h', 'src/MaybeDynamicPackedStruct.h'],
 [('dynamic offset computation', 'src/DynamicPackingInfo.h'), ('DynamicPackedStruct storage', 'src/DynamicPackedStruct.h')])

prop('C16', 'Mixed-sign integer helpers agree with the mathematical integers',
 'For all pairs of integer types and all values, the integral comparison functions, minimum and maximum, sign conversions and power-of-two test agree with the same operation on the mathematical integers, regardless of signedness and width of the operands.',
 ['inputs', 'programs'], 'all values of all pairs of built-in integer types', 
 'The unit tests check chosen constants; the errors that matter (sign extension, promotion) show only at type boundaries of particular type pairs.',
 ['src/IntegralComparisons.h', 'src/Min.h', 'src/Max.h', 'src/IsPowerOfTwo.h', 'src/ToSigned.h', 'src/ToUnsigned.h', 'src/SignedToUnsigned.h'],
 [('integral comparison overloads', 'src/IntegralComparisons.h')])

prop('C17', 'Splitting and concatenation preserve every character and piece',
 'For every input sequence and delimiter predicate, splitting calls the action on exactly the maximal delimiter-free pieces in order (all of them, or only non-empty ones in the no-empty variant), so that joining the pieces with the delimiters reproduces the input, and an exception from the action ends the splitting at once. '
 'Concatenating arbitrary streamable values gives exactly the concatenation of their individual stream outputs, and a memory input stream yields exactly the given bytes and then end of file, answering every sequence of read operations like an ordinary string stream.',
 ['inputs'], 'all inputs, delimiter sets, throwing points, argument lists and stream operation sequences',
 'There are no unit tests for these headers.',
 ['src/Split.h', 'src/Concat.h', 'src/InputMemoryStream.h'], [('split', 'src/Split.h'), ('concat', 'src/Concat.h')])

prop('C18', 'UUID values round-trip through their text and byte forms',
 'For every 128-bit UUID value, formatting gives the canonical 8-4-4-4-12 lower-case form of its bytes in order, and constructing from that text or those bytes gives back an equal value; ordering and equality are those of the bytes. Malformed text is rejected, and the UUID generated for a name is the version 5 (SHA-1 name-based) UUID of its bytes in the fixed Sharemind namespace.',
 ['inputs'], 'all 128-bit values and all candidate texts', 'TestUuid checks a few literals.', ['src/Uuid.h'], [('Uuid', 'src/Uuid.h')])

prop('C19', 'Strong types and flag sets forward exactly their underlying operations',
 'Every enabled operation of a strong type gives the wrapped result of the same operation on the underlying values, changes only its left operand where it should, and never mixes up operands or operators; flag sets behave as sets of bits under every sequence of their operations. '
 'Atomic flag operations are atomic: under every interleaving of several threads each operation returns the state immediately before it in some single total order, with the final state equal to applying that order.',
 ['inputs', 'histories', 'schedules'], 'all operand values, operation sequences and interleavings', 'TestStrongType samples single values; Flags and AtomicFlags have no tests.',
 ['src/StrongType.h', 'src/Flags.h', 'src/AtomicFlags.h', 'src/EnumToUnderlying.h', 'src/MaybeEnumToUnderlying.h'],
 [('operator forwarding mixins', 'src/StrongType.h'), ('compare-exchange loops', 'src/AtomicFlags.h')])

prop('C20', 'Call-stack contexts and nested exceptions keep exact nesting order',
 'At every point of every program of nested scopes, threads and exceptions, walking the current call-stack context lists exactly the live contexts of the calling thread, innermost first, with no entry of other threads, also after scopes are left by exceptions. '
 'Throwing with nesting and rethrowing of nested lists always yields exception chains that contain exactly the given exceptions in the documented order, each with its original type and message. '
 'Exceptions defined by the library and by its macros keep their message (and error number) through throwing, copying and assigning.',
 ['programs', 'histories'], 'all nesting structures, unwinding points and exception lists', 'The unit tests check one or two levels.',
 ['src/CallStack.h', 'src/ThrowNested.h', 'src/ThrowWithNested.h', 'src/Exception.h', 'src/ExceptionMacros.h', 'src/detail/ExceptionMacros.h'],
 [('thread-local context chain', 'src/CallStack.h')])

prop('C21', 'File descriptors are closed exactly once and system calls retried correctly',
 'For every history of opening, moving, assigning, resetting, duplicating and destroying descriptor owners, each owned descriptor is closed exactly once and only when its owner gives it up, a released or moved-from owner closes nothing, and duplicates are independent. '
 'The retrying system-call helper repeats a call exactly while it fails as interrupted or temporarily unavailable (EINTR, EAGAIN), returns the first success unchanged and reports every other failure with its error number; adding descriptor flags keeps the flags already set.',
 ['histories', 'fault_sequences'], 'all ownership histories and all sequences of injected results and errno values', 'There are no unit tests for these headers; faults such as EINTR do not occur in tests.',
 ['src/FileDescriptor.h', 'src/Posix.h', 'src/Exception.h'], [('FileDescriptor ownership', 'src/FileDescriptor.h'), ('syscallLoop', 'src/Posix.h')])

prop('C22', 'Event loop delivers exactly the enabled events and obeys stop and wake-up',
 'For every history of inserting, modifying, re-arming, removing descriptors and signalling readiness, the event loop calls a descriptor\'s handler exactly for events that occurred and are enabled for it, once per arming, never for another descriptor, and never after its removal has completed (the descriptor is removed and the waiting for the end of the current loop iteration has returned). '
 'A requested stop makes the loop return for good, no stop request, notification or waiting thread is lost whether or not the loop is running, and system calls that fail are retried or reported with their error number. The loop\'s own descriptors are not inherited by programs executed and are closed with it.',
 ['histories', 'schedules'], 'all histories over several pipes/eventfds and stop/notify requests', 'There are no unit tests for this header.',
 ['src/EventLoop.h', 'src/SingleThreadEventLoop.h'], [('epoll dispatch', 'src/EventLoop.h')])

prop('C23', 'Start, stop and wait primitives lose no wake-up and let no thread through early',
 'Under every schedule, waiters on a latch are released exactly when it has been counted down the given number of times, a stop request is eventually and permanently seen by every checker of the stop test (raising its exception where promised), a simple waiter returns exactly after being notified or its stop condition holds, and a thread created without starting runs its body exactly once after being started. '
 'No schedule deadlocks when the awaited condition is met and none has a data race.',
 ['schedules'], 'all interleavings of several waiting, counting, stopping and starting threads', 'There are no unit tests for these headers.',
 ['src/Latch.h', 'src/SimpleWait.h', 'src/Stoppable.h', 'src/NoStartThread.h', 'src/Spinwait.h'], [('condition variable protocols', 'src/Latch.h')])

prop('C24', 'Shared-ownership helpers share exactly one control block and run clean-up once',
 'Pointers obtained from an object through the shared-from-this helper (through any base, const or not) and pointers to elements of a shared tuple address the right sub-object and share ownership with the original, so that the object lives exactly as long as any of them and is destroyed once. '
 'A scope-exit action runs exactly once at the end of the scope of its guard on every way out (normal, jumping, returning or throwing), guards act in reverse order of creation, and a guard made from another one by a move acts in its place. The global deleter releases exactly the storage it is given, once.',
 ['histories'], 'all histories of copying, converting and releasing pointers over class hierarchies and tuples, and all ways of leaving scopes', 'Only tuple element pointers are tested, on one example.',
 ['src/EnableSharedFromThis.h', 'src/SharedTupleElementPointers.h', 'src/ScopeExit.h', 'src/GlobalDeleter.h'], [('aliasing constructors', 'src/SharedTupleElementPointers.h')])

prop('C25', 'Intrusive shared item set is a set whose items survive as long as needed',
 'For every history of insert, erase, find, iteration and clearing, the intrusive shared-item set contains exactly the items inserted and not yet removed, with at most one item per key (a refused duplicate insertion changes nothing), size and iteration agree with it, and the set holds exactly one share of each contained item and none of any other, whatever is inserted, refused, erased, taken, copied or assigned and also when hashing or comparing throws.',
 ['histories'], 'all operation histories over colliding and distinct keys with external ownership of items', 'There are no unit tests for this header.',
 ['src/IntrusiveUnorderedSharedItemSet.h'], [('self-owning hook', 'src/IntrusiveUnorderedSharedItemSet.h')])

prop('C26', 'Aligned and uninitialized storage is aligned, disjoint, complete and freed once',
 'For every alignment, size and history, aligned allocation returns storage of the requested size at the requested alignment that overlaps no other live allocation and is freed exactly once, impossible requests fail with the standard allocation error, and allocator-aware containers using it behave as with the default allocator. '
 'An uninitialized dynamic array of any size gives access to exactly its elements and keeps them through moves and swaps.',
 ['inputs', 'histories'], 'all sizes, alignments, element types and allocation histories', 'There are no unit tests for these headers.',
 ['src/AlignedAllocator.h', 'src/UninitializedDynamicArray.h'], [('aligned allocation functions', 'src/AlignedAllocator.h')])

prop('C27', 'Reference vectors and tuple utilities address exactly the given elements',
 'A reference vector made from a memory reference gives access to exactly the whole elements lying in that memory, in order and in place, through indexing, iteration, constant views and randomization, and touches nothing beyond them. '
 'Applying a callable to any non-empty tuples calls it once with every element of every tuple exactly once in order with its value category, and returns what it returned. '
 'Building a null-free tuple keeps exactly the given elements which are not null pointer constants of the null pointer type, in order, with references wrapped as references, and its getter finds them by their original positions.',
 ['inputs', 'programs'], 'all memory references, tuple shapes, element types and value categories', 'There are no unit tests for these headers.',
 ['src/ReferenceVector.h', 'src/ApplyTuples.h', 'src/NoNullTuple.h', 'src/StripAndDecay.h', 'src/DecayTupleSize.h'], [('recursive application', 'src/ApplyTuples.h')])

prop('C28', 'Type-level functions compute the list and cv operations they name',
 'For every list of types or values, the template list operations (append, prepend, first, last, sub-list, prefix, suffix, common prefix, filter and inverse filter, count, contains, all/any/none, size sum, positional access, instantiation and copying of parameters, conditional append) give the type-level result that the operation of the same name gives on ordinary lists, and the cv/reference/decay/function traits give for every type exactly what their names define (the arguments of a member function pointer start with a pointer to its class).',
 ['programs'], 'all generated programs over type lists of any length and shape', 'The unit tests assert a few fixed instantiations; each law quantifies over all lists.',
 ['src/TemplateAll.h','src/TemplateAny.h','src/TemplateAppend.h','src/TemplateAppendTypes.h','src/TemplateCommonPrefixTypes.h','src/TemplateContainsType.h','src/TemplateCountTypes.h','src/TemplateFilter.h','src/TemplateFilterTypes.h','src/TemplateFirstType.h','src/TemplateLastType.h','src/TemplateSubTypes.h','src/CopyCv.h','src/FunctionTraits.h','src/SizeOfTypes.h','src/TemplateCondAppend.h','src/TemplateCondAppendType.h','src/TemplateCopyParams.h','src/TemplateGetParam.h','src/TemplateGetTypeParam.h','src/TemplateInstantiateWithTypeParams.h','src/TemplateInverseCondAppend.h','src/TemplateInverseCondAppendType.h','src/TemplateInverseFilter.h','src/TemplateInverseTypeFilter.h','src/TemplateList.h','src/TemplateNone.h','src/TemplatePrefixTypes.h','src/TemplatePrepend.h','src/TemplatePrependTypes.h','src/TemplateSuffixTypes.h','src/TemplateTypeList.h','src/CopyConst.h','src/CopyVolatile.h','src/RemoveCvref.h','src/IsReferenceable.h','src/StripAndDecay.h','src/StripReferenceWrapper.h','src/DecayTupleSize.h','src/TypeIdentity.h','src/AlwaysTrue.h','src/AlwaysFalse.h','src/AlwaysTruePred.h','src/AlwaysFalsePred.h','src/AlwaysTrueType.h','src/AlwaysFalseType.h','src/AlwaysTrueTypePred.h','src/AlwaysFalseTypePred.h'],
 [('recursive templates', 'src/Template*.h')])

prop('C29', 'Concepts, detection and swap traits answer what the language answers',
'For every type, detection reports exactly whether the named expression or type is valid and yields it or the given default (without one, a type no object of which can exist); swappability traits answer as the standard ones for all pairs of types, including void and non-referenceable ones; every concept holds exactly for the types with the abilities it names (comparisons in all const variants with results usable as truth values, callables, predicates, special members, class relations, conversions, hashes, nullable pointers including smart pointers), and every combination of concepts by all, any, none and not holds exactly when the logical formula does and constrains overloads accordingly. '
'Pointer arithmetic, copying, element sizes and allocation types over possibly-void types treat void as bytes and objects as elements for every type, qualifier, offset and offset type.',
['programs', 'inputs'], 'all generated classes, concept formulas, pointers and offsets', 'The unit tests instantiate a fixed handful; most traits and concepts have none (their own todo notes say so).',
['src/Concepts.h', 'src/Detected.h', 'src/Void.h', 'src/IsSwappable.h', 'src/IsReferenceable.h', 'src/PotentiallyVoidTypeInfo.h', 'src/EnumConstant.h', 'src/AssertReturn.h'],
[('recursively evaluated concepts', 'src/Concepts.h'), ('trait dispatch', 'src/IsSwappable.h')])

prop('C30', 'Unordered map behaves as a map under every history and every lookup form',
 'For every history of inserts, assignments, erasures, lookups (by key, by compatible key type, by hash and predicate), copies, moves, swaps and clears, the unordered map equals a mathematical finite map: at most one value per key, every lookup form finds exactly the matching entry, sizes, iteration, buckets and equality agree with the contents, entries never move, distinct map objects never share entries, a single insertion which throws changes nothing, and all memory comes from and returns to the right allocators. '
 'Hashing and comparing strings gives the same result for the same characters in every string form (standard strings, C strings, ranges of any iterator category), whatever the characters, so lookups succeed with any of them; raw data hashing is a function of exactly the bytes.',
 ['histories', 'inputs'], 'all operation histories, colliding hash functions and key forms', 'The unit tests are a short script (and cannot even be built here); hash collisions and aliasing between copies need generated histories.',
 ['src/UnorderedMap.h', 'src/SimpleUnorderedStringMap.h', 'src/StringHasher.h', 'src/StringHashTablePredicate.h', 'src/HashTablePredicate.h', 'src/Hash.h'],
 [('hash-keyed multimap of shared entries', 'src/UnorderedMap.h')])

prop('C31', 'Optionals hold at most one value and construct and destroy it exactly once',
 'For every history of constructing, assigning (from values, optionals of the same or convertible types, or nothing), emplacing, swapping, resetting, comparing and value-or access, an optional is either empty or holds exactly the value last stored (built-in values of every kind included), comparisons order empty before every value, and copies are independent. '
 'Each contained object is constructed and destroyed exactly once, also when a constructor, conversion, assignment or swap throws; a failed emplacement leaves the optional empty, every other failed operation leaves it as it was, and the exception always reaches the caller. This holds for every kind of value type: trivial or not, copyable, move-only, immovable, unassignable, constant, over-aligned or with its own swap function or operators new and &.',
 ['histories', 'fault_sequences'], 'all operation histories with tracked and throwing value types', 'The unit tests check fixed examples (and cannot be built here).',
 ['src/Optional.h'], [('storage bases', 'src/Optional.h')])

prop('C32', 'Ranges measure, compare and reverse exactly their elements',
 'For every pair of iterables of any iterator category, with or without a known size, bounded by an iterator or a sentinel, equality, sizes, measuring, reversal and literal string ranges agree with the element sequences visited by plain iteration; no helper moves or reads an iterator past its end or passes twice over a single-pass range, and elements can be changed through reversed ranges exactly when they can be through the range. '
 'For every class, each iterator and range concept (forward and reversed, with and without a value type) holds exactly when the class has the operations the concept names.',
 ['inputs', 'programs'], 'all element sequences, iterator categories and generated iterator and range classes', 'The unit tests check fixed sequences (and cannot be built here).',
 ['src/Size.h', 'src/Range.h', 'src/ReversedRange.h', 'src/Iterator.h', 'src/ReversionWrapper.h'], [('rangeEqual overloads', 'src/Range.h')])

prop('C33', 'Thread pools and strands run every submitted task exactly once, strands in order',
 'Under every schedule each task submitted to a thread pool or strand before it is stopped runs exactly once (or is discarded, never run twice, when stopped first), a task that resubmits itself keeps running until it does not, and tasks of one strand never overlap and run in submission order. '
 'Stopping (strands before their pool) and destroying always return, timed participation returns once its time is up and no task is ready, a single worker starts tasks in submission order, a pool of n threads works on n tasks at once, and a thread which can not be created is reported; no schedule has a data race, lost wake-up, use after free, deadlock or unbounded recursion.',
 ['schedules'], 'all interleavings of submitting, working and stopping threads', 'There are no unit tests for these headers.',
 ['src/ThreadPool.h', 'src/SimpleThreadPool.h', 'src/ParticipatoryThreadPool.h', 'src/Strand.h'], [('task queue protocols', 'src/ThreadPool.h')])

prop('C34', 'Lock-free queue and ticket lock are correct under any schedule',
 'Under every interleaving of many producers and one consumer, every pushed item is popped exactly once, items of one producer come out in its order, an item pushed before another push began comes out first, and the popped data is exactly the data pushed and completely visible to the consumer; a pop finds an item whenever items remain and no push is under way. '
 'At most one thread is inside a ticket lock at a time, waiting threads are admitted in arrival order, and all memory effects of one holder are visible to the next.',
 ['schedules'], 'all interleavings of producers/consumer and of lockers', 'There are no unit tests for these headers, and x86 hides missing memory ordering.',
 ['src/MpscWaitFreeSemiIntrusiveQueue.h', 'src/TicketSpinLock.h', 'src/Spinwait.h'], [('atomic exchange of the tail', 'src/MpscWaitFreeSemiIntrusiveQueue.h'), ('ticket counters', 'src/TicketSpinLock.h')])

prop('C35', 'Byte-order conversion and message encoding round-trip every value',
 'For every value, converting to a fixed byte order gives exactly that order\'s bytes and converting back gives the value; integer literals have the named type and exactly their value (plain unsigned and _overflow ones modulo its size) or, when invalid or too large for a checked one, do not compile. '
 'Reading a network message with the sequence of reads matching the writes that built it returns the written values and consumes exactly their bytes, and every read of truncated or malformed data fails without reading outside the message or moving the read position; a datum holds exactly the bytes given or the whole content of the file, or the load throws.',
 ['inputs', 'histories'], 'all values, message structures, truncation points and corruptions', 'There are no unit tests for these headers that can be built here.',
 ['src/EndianMacros.h', 'src/NetworkMessage.h', 'src/Datum.h', 'src/IntegerLiterals.h', 'src/CstdintLiterals.h', 'src/CstddefLiterals.h'], [('bounded reads', 'src/NetworkMessage.h')])

prop('C36', 'Verbose handlers report the whole exception chain and restore what they replace',
 'For every chain of nested exceptions, printing it writes exactly one numbered line per exception, outermost first, each with its type and message, ends where the chain ends (also at an exception able to hold a cause but holding none, or, saying so, at one that is no standard exception) and returns. '
 'The verbose handlers print the chain of the active exception, if any, and abort. Every handler scope, however nested and however left, installs both handlers and on leaving puts back exactly those it found.',
 ['histories', 'programs'], 'all exception chains, handler calls and scope histories', 'There are no unit tests for these handlers.',
 ['src/DebugVerboseHandlers.h'], [('walk over the nested exceptions', 'src/DebugVerboseHandlers.h'), ('saved handlers', 'src/DebugVerboseHandlers.h')])

prop('C37', 'Test assertions stop the program exactly when they fail and report why',
 'Every assertion macro evaluates its expression exactly once and lets the program go on, disturbing nothing, exactly when the expression is true (or throws, or does not throw, as the macro demands); otherwise it prints one line with the place and the text of the expression exactly as written, whatever characters they contain, and aborts. '
 'When an unexpected exception is why, one numbered line per exception of its chain follows, outermost first, ending where the chain ends (also at an exception able to hold a cause but holding none, or, saying so, at one that is no standard exception); printing the exception being handled, if any, does the same and returns.',
 ['inputs', 'programs'], 'all expressions, values and exception chains', 'The unit tests use these assertions but never see one fail.',
 ['src/TestAssert.h'], [('assertion and printing macros', 'src/TestAssert.h')])

prop('C38', 'Clock readings in microseconds are exact and failures are reported',
 'For every time the system reports, the microsecond clock returns exactly the microseconds since the epoch, taken by one call to the system; when the system fails, the given fallback value is returned (zero if none is given) or exactly the given exception is thrown, whatever its type, and the time is not read from memory never written.',
 ['inputs', 'fault_sequences'], 'all system times, failures, fallback values and exceptions', 'There are no unit tests for this header.',
 ['src/MicrosecondTime.h'], [('conversion of the time of day', 'src/MicrosecondTime.h')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
