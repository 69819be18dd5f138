IR = ("Decided on the LLVM IR of driver translation units which instantiate the public operations "
      "(everything from the repository inlined, opaque user types), both with and without assertions. ")
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, state=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=technique, note=note, state=list(state),
                      observe=list(observe), na=na))


SYNC = ("src/Latch.h src/SimpleWait.h src/IdentifierPool.h src/SharedResourceMap.h src/Future.h "
        "src/TimeoutsThread.h src/ThreadPool.h src/SimpleThreadPool.h src/ParticipatoryThreadPool.h "
        "src/Strand.h src/ObjectTree.h src/CircBufferSCSP.h src/EventLoop.h src/NoStartThread.h")

P("C01", "Shared state of the concurrent classes is accessed only under its lock",
  "All state that the thread-safe classes (latch, wait object, identifier pool, shared resource map, "
  "future and promise state, timeouts thread, thread pools, strand, object tree, locking circular "
  "buffer) change after construction is read and written only while one fixed lock of the same object "
  "is held, or is atomic. This holds on every path through every public operation, so that concurrent "
  "calls never race on it.",
  "schedules programs", "all interleavings of public operations on one object, all paths through each operation",
  "the tests run few threads and see a race only if the scheduler happens to expose it", SYNC,
  [("lock guards around every access", "src/TimeoutsThread.h TimeoutsThread::addTask"),
   ("locks of shared state", "src/Future.h SharedState")],
  "lockset dataflow analysis on normalised LLVM IR",
  IR + "Assumes that the mutexes exclude and that constructors and destructors do not run concurrently "
  "with other operations on the object.",
  [("m_tasks", "queued timeout tasks", "src/TimeoutsThread.h"), ("isSet", "result present", "src/Future.h")])

P("C02", "Locks are always released, never taken twice, and held while waiting",
  "Every public operation of the concurrent classes releases each lock it takes on every way out, "
  "whether it returns or throws. No operation takes a lock it already holds, releases one it does not "
  "hold, or waits on a condition variable without the lock.",
  "programs fault_sequences", "all paths through each operation, including those on which user code or an allocation throws",
  "tests do not make every call inside a critical section fail", SYNC,
  [("scoped locks", "src/*.h")], "lock typestate analysis over all CFG paths including unwinding",
  IR + "Two objects reached through different pointers are taken to be different objects.",
  [("m_mutex", "locks of the classes", "src/*.h")])

P("C03", "No wake-up is lost and no spurious wake-up is let through",
  "Whenever an operation of the concurrent classes makes true what blocked threads may be waiting for, it "
  "wakes them: all of them if the change can release all of them, and at least one otherwise. A blocking "
  "operation tests what it waits for before it blocks, tests it again after every wake-up, and "
  "untimed waits end only when it holds; every waiter also notices a stop that is announced to all waiters.",
  "schedules", "all interleavings of waiting and notifying threads, including spurious wake-ups",
  "a lost wake-up shows only in one narrow interleaving, as a hang; spurious wake-ups do not happen on demand",
  SYNC, [("notify after each enabling change", "src/Latch.h countDown, src/ThreadPool.h submit"),
         ("wait loops and predicates", "src/SharedResourceMap.h waitForEmpty")],
  "path-sensitive wait/notify dataflow analysis with discovered predicates",
  IR + "What is waited for is discovered from the tests which dominate each wait; one waiter at a time is "
  "assumed for the single-producer single-consumer buffer. Whether a woken thread makes progress is not analysed.",
  [("m_cond", "condition variables", "src/*.h")])

P("C04", "Tasks and continuations run without any internal lock held",
  "Thread pools, strands, timeouts threads, delayed-start threads, futures, promises and packaged tasks "
  "never hold any of their own locks while they run a task, function or continuation given by the user. "
  "User code may therefore call back into the same object without deadlocking.",
  "programs schedules", "all paths to every call of user code",
  "tests rarely submit to, or query, the object from inside its own callback",
  "src/ThreadPool.h src/SimpleThreadPool.h src/ParticipatoryThreadPool.h src/Strand.h src/TimeoutsThread.h src/NoStartThread.h src/Future.h",
  [("critical section closed before the task is run", "src/TimeoutsThread.h run"),
   ("continuation handed out of the critical section", "src/Future.h setException, emplaceValue, then")],
  "lockset dataflow at user-code call sites",
  IR + "Destructors of user objects are not regarded as callbacks. Classes documented to call back under "
  "their lock (resource map constructors and visitors, stop tests, event handlers) are not covered.")

P("C05", "Background threads are stopped and joined before their object dies",
  "The destructors of the timeouts thread, simple thread pool, single-thread event loop, delayed-start "
  "thread and participatory pool signal their threads to stop and then wait for them, before any other member is "
  "destroyed and never destroying a joinable thread. Their constructors start a thread only after all state the "
  "thread uses has been initialised, and a constructor which fails does not leave a started thread behind.",
  "schedules fault_sequences", "all paths through constructors and destructors and all relative speeds of the threads",
  "the thread usually starts too late or ends too early for a test to see it touch dead or unborn state",
  "src/TimeoutsThread.h src/SimpleThreadPool.h src/SingleThreadEventLoop.h src/NoStartThread.h src/ParticipatoryThreadPool.h",
  [("stop then join in the destructor", "src/TimeoutsThread.h ~TimeoutsThread"),
   ("thread declared last", "src/TimeoutsThread.h m_thread"),
   ("join on failure", "src/SimpleThreadPool.h constructor")],
  "typestate and order analysis of constructors and destructors",
  IR + "Assumes that a signalled thread terminates.",
  [("m_thread", "thread handle", "src/TimeoutsThread.h")])

P("C06", "An object may be destroyed as soon as a wait on it has returned",
  "The last thread to count down a latch, to notify a wait object, to leave a participatory thread pool or to "
  "finish a strand's task notifies the waiting threads while it still holds the object's lock, and does not touch the object "
  "again after releasing that lock. A thread whose wait returned may therefore destroy the object at once.",
  "schedules", "all interleavings of the notifying thread with a waiter which destroys the object",
  "needs the waiter to run between two adjacent instructions of the notifier",
  "src/Latch.h src/SimpleWait.h src/ParticipatoryThreadPool.h src/Strand.h",
  [("notification inside the critical section", "src/Latch.h countDown"),
   ("notification inside the critical section", "src/SimpleWait.h notifyReady")],
  "path-sensitive access analysis after the final unlock",
  IR + "Assumes that unlocking a mutex which is destroyed right afterwards is safe, as POSIX requires.",
  [("m_cond", "condition variable of the object", "src/Latch.h")])

FLOW = ("Decided by a path-sensitive value-flow analysis of the LLVM IR of driver translation units which instantiate "
        "the public operations with opaque user types; every path of every operation is covered, with and without assertions. ")

P("C07", "A promise is fulfilled exactly once and its future tells exactly that result",
  "Each of setValue, emplaceValue, setException, setReady, abandon, and a packaged task's call announces exactly one "
  "result, of the right kind, and invalidates the promise; if it throws instead, nothing was announced and the promise "
  "can still be fulfilled. A promise which is destroyed or assigned over unfulfilled announces a broken promise. "
  "Futures never report readiness before the result is complete, and takeValue either moves the announced value out or rethrows "
  "the announced exception. Continuations and their futures obey the same rules.",
  "programs schedules fault_sequences", "all paths through all operations on promises, futures and packaged tasks, including throwing user types, and all interleavings of one promise with its future",
  "the tests use values which do not throw and look at few of the exits", "src/Future.h",
  [("result flag raised under the state lock", "src/Future.h SharedState"),
   ("broken promise on destruction and assignment", "src/Future.h Promise"),
   ("continuations forward results", "src/Future.h then, ContinuationBase")],
  "path-sensitive value-flow analysis of the promise state", FLOW +
  "Assumes that distinct pointer arguments denote distinct objects and that the lock discipline of C01 holds.",
  [("isSet", "result present", "src/Future.h")])

P("C08", "A continuation of a future runs exactly once and after the result is there",
  "A continuation attached with then() is run exactly once: at once if the result is already there, else by the operation that announces "
  "the result. It is never dropped or run twice, and runs only after the result was announced; the future given to it is "
  "valid and ready, and the future on which then() was called becomes invalid.",
  "schedules programs fault_sequences", "all interleavings of then() with the operation fulfilling the promise, and all exits of both",
  "the race between attaching and fulfilling is hit rarely, and the tests see only its usual outcome", "src/Future.h",
  [("continuation slot guarded by the state lock", "src/Future.h SharedState"),
   ("fulfilment takes the continuation", "src/Future.h setException, emplaceValue, setReady")],
  "path-sensitive value-flow analysis of the continuation slot", FLOW +
  "Assumes that the lock discipline of C01 holds.")

P("C09", "Lock-free primitives hand over what was written before the hand-over",
  "The ticket spin lock admits one thread at a time, in the order of its tickets, and what was written under it is visible to the next holder. The "
  "multi-producer queue loses and duplicates no node, publishes a pushed element completely to the thread that pops it, and pops "
  "in the order in which the tail was exchanged. "
  "Every operation on atomic flags is one atomic step with the memory order asked for.",
  "schedules programs", "all interleavings and all orders permitted by the memory model",
  "the test machine's strong memory order hides missing ordering, and lost updates need an exact interleaving",
  "src/TicketSpinLock.h src/MpscWaitFreeSemiIntrusiveQueue.h src/AtomicFlags.h",
  [("ticket drawn by one atomic increment", "src/TicketSpinLock.h lock"),
   ("exchange of the tail and release of the link", "src/MpscWaitFreeSemiIntrusiveQueue.h push"),
   ("acquiring load of the link", "src/MpscWaitFreeSemiIntrusiveQueue.h pop"),
   ("single atomic accesses", "src/AtomicFlags.h")],
  "atomic-order and path-sensitive value-flow analysis", FLOW +
  "Checks that the protocol has the shape which is known to be correct under the C++ memory model; one consumer at a time is assumed.",
  [("m_active", "ticket being served", "src/TicketSpinLock.h"), ("m_tail", "last node", "src/MpscWaitFreeSemiIntrusiveQueue.h")])

P("C10", "Tasks are run exactly once, in order, and not before their time",
  "The thread pool's workers take submitted tasks in the order of submission, each is run by one worker, and a worker ends only on stop. "
  "A strand runs its tasks one at a time in submission order: it is queued on its executor when it gets work and is idle, and is requeued or "
  "becomes idle after its slice; stopping a strand waits for it to become idle, except from within its own tasks. The timeouts thread takes the earliest task first, tasks for equal times in order of submission, and none "
  "before its time. A delayed-start thread runs its function exactly if it was started. A task object calls the function it was made from once "
  "per run, and a reusable task's function gets the task back.",
  "schedules programs", "all interleavings of submitters, workers and stop, all queue states and all clock readings",
  "lost, doubled or reordered tasks need exact interleavings or rarely met queue states",
  "src/ThreadPool.h src/SimpleThreadPool.h src/Strand.h src/TimeoutsThread.h src/NoStartThread.h",
  [("FIFO list of tasks under the queue lock", "src/ThreadPool.h submit, getTask_"),
   ("queued-or-running state of a strand", "src/Strand.h"),
   ("ordered multiset and due test", "src/TimeoutsThread.h run, addTask"),
   ("start and destruction hand-over", "src/NoStartThread.h")],
  "path-sensitive value-flow analysis of queue states", FLOW +
  "Assumes that the lock discipline of C01 holds, that the steady clock is monotonic, and that Boost.Intrusive's trees and lists work as documented.",
  [("m_tasks", "tasks by time", "src/TimeoutsThread.h")])

P("C11", "The circular buffer hands over every element once, in order, within bounds",
  "What the producer writes into the circular buffer the consumer reads once and in the order written, whichever mix of plain, partial, "
  "blocking and actor-driven operations is used. No operation announces more than was transferred, reads elements "
  "not yet written, overwrites elements not yet read, or touches memory outside the buffer; the amounts reported as "
  "available are never more than what is available and continue to the end of the buffer at most. Blocking operations "
  "wait as long as there is nothing to do, and only so long.",
  "inputs sequences schedules", "all buffer sizes, offsets, fill levels and transfer sizes, and all sequences of operations of one producer and one consumer",
  "the tests use few sizes and transfer whole blocks; wrapping around needs particular offsets",
  "src/CircBufferSCSP.h",
  [("offsets stay inside the buffer and follow what was announced", "src/CircBufferSCSP.h haveRead, haveWritten"),
   ("loops which transfer piecewise", "src/CircBufferSCSP.h read, write"),
   ("amount available under its lock", "src/CircBufferSCSP.h")],
  "value-flow analysis with inductive linear invariants", FLOW +
  "Loop invariants are found by abstract interpretation over linear inequalities. Assumes one producer and one consumer, amounts given by "
  "callers within what was reported, actors which transfer no more than they were offered, and fewer than 2^60 elements.",
  [("m_dataAvailable", "elements written and not read", "src/CircBufferSCSP.h"),
   ("m_readOffset", "next element to read", "src/CircBufferSCSP.h"), ("m_writeOffset", "next element to write", "src/CircBufferSCSP.h")])

P("C12", "File descriptors are closed exactly once, never leaked, and never inherited",
  "A FileDescriptor owns at most one descriptor: moving, assigning, resetting, releasing, closing and destroying either hand it over "
  "to exactly one new owner or close it exactly once, and only what the object owns is closed. The event loop closes every descriptor "
  "it opened exactly once, whether its constructor fails at any step, stop is called any number of times concurrently, or it is destroyed; it never "
  "closes a descriptor it was asked to watch. Every descriptor the library creates has close-on-exec set from its creation.",
  "sequences fault_sequences schedules", "all sequences of operations on descriptors and all failures of system calls",
  "the tests do not count open descriptors and cannot make the system calls fail", "src/FileDescriptor.h src/EventLoop.h",
  [("hand-over of the descriptor", "src/FileDescriptor.h"), ("pipe and epoll descriptors", "src/EventLoop.h Pipe, Epoll"),
   ("write end closed once", "src/EventLoop.h writeEndClose")],
  "path-sensitive ownership analysis of descriptors", FLOW +
  "Assumes that different objects hold different descriptors, and that close() releases the descriptor whatever it returns.",
  [("m_fd", "descriptor owned, or -1", "src/FileDescriptor.h")])

P("C13", "Interrupted system calls are retried, errors surface, events are handled once",
  "A system call is repeated exactly if it failed because it was interrupted or would block; any other failure surfaces as an exception "
  "which carries its error number, or as the documented result (already present, not present). Each operation on the event loop "
  "registers, changes or removes exactly the given descriptor with the given events, one-shot, and handler. run() hands every event reported to its "
  "handler exactly once, returns only when it is stopped or the pipe to it fails, in that case after handling the events received with "
  "the stop signal, and throws only if waiting fails. stop() returns after run() has ended; "
  "waiting for the end of a loop iteration returns only after one ended or when the loop is not running.",
  "fault_sequences inputs schedules", "all results and error numbers of the system calls, all sets of reported events with the stop signal at any position, and all interleavings of run() with stop() and waiters",
  "the tests cannot make system calls fail at will, nor have many events reported together with the stop signal",
  "src/EventLoop.h src/Posix.h src/SingleThreadEventLoop.h",
  [("retry loop", "src/Posix.h syscallLoop"), ("read-modify-write of descriptor flags", "src/Posix.h fcntlAddFlags"),
   ("epoll registration", "src/EventLoop.h epollCtl, epollInsert, epollInsertOrModify, epollRemove"),
   ("dispatch and stop", "src/EventLoop.h run"), ("iteration counter", "src/EventLoop.h spinOnLoopIterationEnd_")],
  "value-flow analysis with inductive linear invariants", FLOW +
  "Assumes that the kernel reports at most as many events as there is room for and at most one for the pipe, and that handlers throw nothing.",
  [("m_loopCounter", "iterations ended", "src/EventLoop.h")])

P("C14", "Integer comparisons, conversions and literals are exact for all values",
  "For all arguments of all integer types, integralLess, integralLessEqual, integralEqual, integralNotEqual, integralGreaterEqual, "
  "integralGreater and the predicates for positive, negative and zero values give the relation of the numbers that the arguments stand for, "
  "whatever the signedness and width of the two types. min and max return one of their arguments which none is beyond. The conversions "
  "between signed, unsigned and enumeration types keep the bits, and the byte order conversions reverse the bytes exactly where the two "
  "orders differ. An integer literal of the library has exactly the value it is written as (modulo the type's range where "
  "overflow is allowed), or does not compile.",
  "inputs", "all values of all pairs of integer types; the literals at the limits of each type",
  "the tests try a handful of values of a few pairs of types", "src/IntegralComparisons.h src/Max.h src/Min.h src/ToSigned.h src/ToUnsigned.h "
  "src/SignedToUnsigned.h src/EnumToUnderlying.h src/MaybeEnumToUnderlying.h src/EndianMacros.h src/IntegerLiterals.h src/CstdintLiterals.h src/CstddefLiterals.h",
  [("comparison by signedness of the two types", "src/IntegralComparisons.h"), ("byte order functions", "src/EndianMacros.h"),
   ("overflow check of literals", "src/IntegerLiterals.h LiteralStep")],
  "value-flow analysis with a linear-inequality domain; compile-fail witnesses", FLOW +
  "Comparisons are decided for every pair of 12 integer types by entailment between linear inequalities over unbounded integers. Literals are decided by the type "
  "system: witnesses at the limits which have to compile, or have to be rejected.",
  [])

P("C15", "Messages are read and written exactly, and never beyond their ends",
  "Every read from an incoming message looks only at bytes of the message, whatever the message says about sizes; succeeds exactly if what is "
  "asked for is there; delivers exactly those bytes, and advances by as much. A read which fails or throws does not advance and reports so. Every write "
  "to an outgoing message appends exactly the bytes of what was passed (strings and arrays preceded by their size), grows "
  "the message by as much, never writes beyond the memory allocated for it, throws if a size does not fit the type it is sent as or memory runs out, "
  "and loses no memory. Seeking never leaves the message.",
  "inputs fault_sequences", "all messages, including hostile ones, all sizes, all positions, failing allocations",
  "there are no tests of messages", "src/NetworkMessage.h",
  [("bounds checks", "src/NetworkMessage.h IncomingNetworkMessage::readBytes"), ("sizes", "src/NetworkMessage.h OutgoingNetworkMessage::writeSizeAndArray"),
   ("growing", "src/NetworkMessage.h OutgoingNetworkMessage::resize")],
  "path-sensitive value-flow analysis with a linear-inequality domain", FLOW +
  "At each exit of each operation, position, size and the bytes copied are compared with the specification by entailment between linear inequalities.",
  [("m_offset", "position in the message", "src/NetworkMessage.h")])

P("C16", "String views look only at their own characters, and search them correctly",
  "No operation of BasicStringView looks at a character outside of the view (or of the other text passed), for any view, position and length. Parts of "
  "a view (substr, left, right, clipped, removePrefix, ...) are the characters asked for, and std::out_of_range is thrown exactly if those are not all there (clipped to the end for "
  "substr). compare() and the operators order texts lexicographically. find, rfind and the find…Of functions report the first (last) "
  "place from the position on (up to the position) at which there is what is looked for, and npos exactly if there is none; without a position the whole text is searched. "
  "The trimming functions remove exactly the longest prefix and suffix made of the given characters.",
  "inputs", "all texts, positions and lengths, any character traits",
  "the tests use a few short null-terminated texts, in which reading one character too many goes unnoticed", "src/StringView.h",
  [("bounds checks", "src/StringView.h BasicStringView::clipped"), ("searching backwards", "src/StringView.h BasicStringView::rfind"), ("trimming", "src/StringView.h BasicStringView::trimmed")],
  "path-sensitive value-flow analysis with inductive loop invariants over linear inequalities", FLOW +
  "Compiled with character traits of which nothing is known, so that each look at a character is a call. Loop invariants are inferred from templates and checked to be inductive. Output to streams is not covered.",
  [])

P("C17", "An optional holds a value exactly when it says so, whatever its operations throw",
  "Optional<T> constructs a value only where there is none, and uses, assigns to and destroys one only where there is one: each value constructed is "
  "destroyed exactly once, also when copying, moving, assigning, swapping, emplacing or comparing throws, and hasValue() always tells whether there is one. "
  "After every operation both optionals have the values they should (copying keeps the source, moving leaves a moved-from value, swap exchanges, valueOr copies or moves exactly one of the two). "
  "Comparisons order 'no value' before every value and otherwise compare the values with the operator asked for. Optionals convert from optionals of other types. An Optional can be copied, moved, "
  "assigned and swapped exactly when its value can, and is noexcept exactly when the operations of the value are.",
  "inputs", "all values types' operations (each may throw), all combinations of empty and non-empty operands",
  "the tests use values which never throw, and no optional of another type", "src/Optional.h",
  [("construction in place", "src/Optional.h Optional::emplace"), ("copying", "src/Optional.h CopyConstructorBase"), ("assignment", "src/Optional.h CopyAssignmentBase"),
   ("exchange", "src/Optional.h Optional::swap"), ("comparisons", "src/Optional.h operator<")],
  "path-sensitive typestate analysis of the value's lifetime on LLVM IR, and type-level witnesses", FLOW +
  "The operations of the value are opaque calls which may throw; the state says which storage has a live value, and which one by provenance. For int and bool the memory itself is compared. Types and noexcept are decided by programs which must (not) compile.",
  [])

P("C18", "No identifier and no shared resource ever exists twice at the same time",
  "IdentifierPool::reserve() hands out an identifier which nobody holds, throws ReserveException exactly when all identifiers are held, "
  "and reserves nothing when it throws. A reserved identifier belongs to exactly one IdHolder, also while holders are moved, assigned (onto "
  "themselves) and released, is given back to its own pool exactly once, and the pool lives as long as its holders. SharedResourceMap::getResource() "
  "returns the resource in use under the key if there is one, and otherwise constructs one under the map's lock, never two. An entry is removed "
  "exactly when its resource is in use no more, also when another thread asks for it at that moment; no resource in use is ever removed; nothing is "
  "left behind when constructing throws; nothing leaks when resources outlive the map. forEach() visits every resource in use once, under its key, and does not deadlock.",
  "schedules", "all interleavings of the operations of threads, all keys, all results of user code including exceptions",
  "the tests reserve and release in one thread and use a few keys", "src/IdentifierPool.h src/SharedResourceMap.h",
  [("lookup and insertion under the lock", "src/IdentifierPool.h IdentifierPool::State::reserve"),
   ("ownership by the holder", "src/IdentifierPool.h IdHolder::operator="),
   ("deleter of a resource", "src/SharedResourceMap.h SharedResourceMap::getResource"),
   ("visiting", "src/SharedResourceMap.h SharedResourceMap::Inner::forEach")],
  "path-sensitive value-flow and ownership analysis of LLVM IR", FLOW +
  "Identifiers, references to pools and resources are followed as tokens: each is held once or given up once on every path; additions to the set or map need a failed lookup "
  "under the same hold of the lock, removals need a test under the lock that the resource expired.",
  [])

P("C19", "Each field of a packed structure has its own bytes, one after another",
  "The fields of PackedStruct, PackedStructAccessor, DynamicPackedStruct and their packing infos lie one after another without gaps: the place of each "
  "is the sum of the sizes of the fields before it, whether these are fixed or given at run time, the same by every way to ask for it, and the size of the structure is that of all its fields. Reading or writing a field touches "
  "exactly its bytes, works at any alignment, and converts values of other types. validSizes() says whether all sizes are within their bounds; minimum and maximum sizes do not wrap around. "
  "UnalignedPointers count in values of their type. A DynamicPackedStruct owns exactly as much memory as its fields take, which is freed exactly once; copies have their own; copying which throws changes nothing; moved-from structures can be assigned to, copied and destroyed.",
  "inputs", "all sizes given at run time, all contents and alignments, failing allocations; representative lists of field types",
  "the tests use one structure with a few sizes", "src/PackedStruct.h src/DynamicPackedStruct.h src/PackingInfo.h src/DynamicPackingInfo.h src/UnalignedPointer.h src/UnalignedReference.h",
  [("places of fields", "src/DynamicPackingInfo.h AccumArrayType::elemOffset"), ("sizes", "src/DynamicPackingInfo.h AccumSize"),
   ("access at any alignment", "src/UnalignedReference.h UnalignedReference::operator="), ("ownership", "src/DynamicPackedStruct.h DynamicPackedStruct::operator=")],
  "path-sensitive value-flow analysis comparing addresses and sizes as polynomials, and type-level witnesses", FLOW +
  "Addresses, sizes and offsets are compared as linear expressions in the sizes given at run time, for lists of fields which have each kind in each position; loads and stores must not claim alignment. The sizes of all fields together are assumed to fit into size_t.",
  [])

P("C20", "Templates over lists of types and type traits give what they are named for",
  "For every list of types or values: the templates which filter, append, prepend, split, count, index, copy or compare lists (Template*), and the predicates (Always*, All, Any, None), "
  "give exactly what the operation of the same name on lists gives, in the same order, also for empty lists, repeated types and lists in other templates; what does not exist (a type after the last one) does not compile. "
  "CopyCv and its relatives set, and OrCv and its relatives add, exactly the qualifiers of the other type; IsSwappable and its relatives say whether swap() compiles (in both orders, without throwing) for any type including void; "
  "FunctionTraits gives result and arguments of functions, pointers, members and function objects with any qualifiers; Detected, Concepts, isPowerOfTwo(), size(), demote_integer() and the other traits say what they are named for, as C++14, C++17 and C++20.",
  "inputs", "all lists of types up to 5 elements with all predicates on them (up to renaming), some longer ones, all qualifiers, each kind of function, representative operations of classes",
  "the tests use a few lists and types", "src/Template*.h src/Concepts.h src/FunctionTraits.h src/IsSwappable.h src/CopyCv.h src/Detected.h src/IsPowerOfTwo.h",
  [("filtering lists", "src/TemplateFilterTypes.h TemplateFilterTypes"), ("common prefixes", "src/TemplateCommonPrefixTypes.h TemplateCommonPrefixTypes"), ("swapping", "src/IsSwappable.h IsSwappableWith"),
   ("functions", "src/FunctionTraits.h FunctionTraits"), ("concepts", "src/Concepts.h Models")],
  "generated type-level witnesses, decided by the compiler", "The definitions as functions of lists are in sa/rules/templates.py; about 7500 static assertions in each of three language standards are generated from them, and programs which must not compile. "
  "The templates can only compare types and ask predicates, so that lists with the same pattern behave the same; lists longer than 5 elements are sampled (up to 34; templates which take exponential time to compile up to 9). Nothing is executed.",
  [])

P("C21", "Memory allocated is large and aligned enough, held by one owner, freed once",
  "Memory from AlignedAllocator, allocateAlignedStorage() and classes with SHAREMIND_ALIGNEDALLOCATION_MEMBERS has at least the size and alignment asked for, or there is std::bad_alloc (null for the nothrow forms): no number of elements makes the size wrap around. "
  "UninitializedDynamicArray and Datum hold their memory alone: construction allocates exactly what the elements take, moves (also onto itself) hand it over with its size, destruction frees it exactly once, also when something throws; begin, end, data and elements lie where they should. "
  "Datum::loadFromFile() gives exactly all bytes of a regular file however read() splits them or is interrupted, and otherwise throws a LoadException with the reason nested; the file is closed exactly once on every path, and not inherited by programs started. "
  "The function given to makeScopeExit() or SHAREMIND_SCOPE_EXIT is called exactly once when the scope is left, on every path, last first. Input streams over memory read exactly the bytes given.",
  "inputs and failures", "all sizes, all alignments used by types, all sequences of results and errors of read(), fstat() and open(), all failing allocations",
  "the tests allocate a few sizes; no call of the system fails in them", "src/AlignedAllocator.h src/UninitializedDynamicArray.h src/Datum.h src/ScopeExit.h src/InputMemoryStream.h",
  [("sizes and alignment", "src/AlignedAllocator.h allocateAlignedStorage"), ("ownership", "src/UninitializedDynamicArray.h UninitializedDynamicArray::operator="),
   ("reading files", "src/Datum.h Datum::loadFileToContainer"), ("scopes", "src/ScopeExit.h ScopeExit")],
  "path-sensitive value-flow and typestate analysis, with an inductive invariant for the loop of read()", FLOW +
  "The loop which reads is decided for any number of rounds by an invariant which is proved to be inductive (read so far + left = size, place = start + read so far). Sizes are compared as linear expressions; multiplications which may wrap around must be guarded.",
  [])

P("C22", "Vectors of bits hold exactly the bits which were put into them",
  "A BitVec behaves as a sequence of bits whatever its blocks are: construction, copies, moves, push_back(), pop_back(), append() (also to itself), assign(), resize(), clear(), set(), reset(), flip(), the operators & | ^ and their assigning forms, swap(), "
  "elements read and written through references, and serialize()/deserialize() give exactly the bits (and the number of bits) of that operation on sequences; bits of the last block beyond the last bit never appear in a result and never decide a comparison. "
  "Vectors are equal exactly if they have the same bits. at() throws std::out_of_range exactly for bits which do not exist; no operation uses a block which does not exist. Messages with another number of bits, or which end early, are refused.",
  "inputs", "all values of all bits (also excess bits); sizes 0 to 130 around the boundaries of blocks of 8, 16, 32 and 64 bits, all alignments of append()",
  "there is no test for them at all; single values would not settle them either", "src/BitVector.h",
  [("appending", "src/BitVector.h BitVec::append"), ("equality", "src/BitVector.h BitVec::equals_"), ("messages", "src/BitVector.h BitVec::deserialize"), ("elements", "src/BitVector.h BitVec::reference")],
  "abstract interpretation of the compiler's IR with an exact domain of boolean functions per bit", FLOW +
  "Each bit of a value is a boolean function (a truth table) of the bits of the inputs, through shifts, masks, additions and comparisons; it is compared with the function the operation stands for. "
  "About 1300 operations on sizes around the boundaries of blocks are decided, for all values of all bits. The blocks are held by a container of fixed place in drivers/bits.cpp instead of std::vector.",
  [])

P("C23", "Splitting a sequence gives all of its pieces, and only these, in order",
  "split() calls the given action exactly once for each piece of the sequence before, between and after the elements which the predicate calls delimiters, in order and with the exact range, "
  "also for empty pieces and empty sequences. splitNoAllowEmpty() does the same for all pieces which are not empty, and for no others. Only elements of the sequence are tested, and both return.",
  "inputs", "all sequences and all answers of the predicate",
  "there is no test for them; the cases at the ends of the sequence are easily missed", "src/Split.h",
  [("pieces", "src/Split.h split"), ("pieces which are not empty", "src/Split.h splitNoAllowEmpty")],
  "path-sensitive value-flow analysis of LLVM IR against a specification of the pieces", FLOW +
  "The predicate and the action are opaque; each path is the set of answers it depends on, and the ranges it announces are compared with the pieces of each sequence in this set. "
  "Bound: sequences of up to 6 elements, which meet every place of both loops at every distance from the ends; elements of 1 and of 24 bytes.",
  [])

P("C24", "Wide integers shift, compare, add, subtract and convert exactly",
  "For uint_t of every width and block type, and for uint128_t, the operators ~ & | ^ << >> + - ++ -- unary minus and their assigning forms give the mathematical result modulo two to the power of the width, "
  "for all operands and all shifts below the width (also shifts by a uint_t), also where carries and borrows pass through several blocks; bits of the last block beyond the width are always zero. "
  "== != < > <= >= and ! decide by the values. Elements are read and written through operator[] and its references without changing other bits. Construction and assignment from unsigned built-in integers, from integers of other widths and block types, "
  "and demotion to built-in integers keep the low bits and fill with zeros.",
  "inputs", "all values of all bits, widths 5 to 200 in blocks of 8 to 64 bits", "there is no test for them; carries through several blocks need particular values", "src/uint_t.h src/uint128_t.h",
  [("sums", "src/uint_t.h operator +"), ("differences", "src/uint_t.h operator -"), ("shifts", "src/uint_t.h operator <<"), ("no excess bits", "src/uint_t.h clear_unused_bits_"), ("conversions", "src/uint_t.h copy_bits_"), ("128 bits", "src/uint128_t.h operator +")],
  "abstract interpretation of the compiler's IR: boolean functions per bit, linear arithmetic over blocks", FLOW +
  "Bits of results of bitwise operators, shifts and conversions are compared as boolean functions of the bits of the inputs; for sums, differences and comparisons the blocks are unknowns of linear inequalities, "
  "the carries of each path follow from its comparisons, and the difference between the result and the mathematical one is shown to be a multiple of two to the power of the width. About 1230 operations are decided.",
  [])

P("C25", "Whatever waits goes on, and does so in time",
  "A thread which waits for a lock, a task, a result or the end of another thread gets it after finitely many steps once it is provided, threads waiting for the ticket lock are served in the order of arrival within bounded time, and timed waits end soon after their time.",
  "schedules", "all schedules and all delays", "fairness and delays are properties of infinite runs and of clocks",
  "src/TicketSpinLock.h src/ThreadPool.h src/Strand.h src/TimeoutsThread.h src/EventLoop.h src/Durations.h",
  [("spinning", "src/Spinwait.h"), ("timed waits", "src/SimpleWait.h waitOrStop"), ("spinning until an iteration ends", "src/EventLoop.h spinOnLoopIterationEnd_")], "none", "",
  [], na="Progress depends on the scheduler, the clock and the kernel, which are not in the source; the parts which are (no lost wake-up, no missing stop, no endless loop over system calls) are C03, C05, C09 and C13.")

P("C26", "Hashes of different values differ about as often as random ones",
  "hashRawData(), StringHasher and the hash tables built on them spread keys evenly, so that lookups take constant time on average.",
  "inputs", "all distributions of keys", "the distribution of few keys says nothing", "src/Hash.h src/StringHasher.h src/UnorderedMap.h",
  [("hashing", "src/Hash.h"), ("tables", "src/UnorderedMap.h")], "none", "",
  [], na="The quality of a hash is statistical; there is no static argument for it.")

P("C28", "Products, quotients and remainders of wide integers are exact",
  "operators * / % of uint_t and uint128_t, multHiLo(), and the output of such numbers give the mathematical result modulo two to the power of the width; division by zero throws.",
  "inputs", "all operands of all widths", "a few operands do not settle carries between blocks", "src/uint_t.h src/uint128_t.h",
  [("products", "src/uint_t.h operator *"), ("quotients", "src/uint_t.h divMod")], "none", "",
  [], na="Products of symbolic blocks are not linear, and no bit of them is a function of few bits, so that neither domain used for C24 can represent them; deciding them needs a solver or a proof, which are other families.")

P("C27", "The LRU cache holds the most recently used items, and the map finds each",
  "After any history of insert(), get() and clear() an LRU owns the most recently used items up to its limit and no others, returns for a key the item last inserted under it as long as this item is alive, and never uses an element which was erased.",
  "sequences", "all histories of operations, all keys, all limits and all lifetimes of the items", "the tests follow a few histories with few keys", "src/LRU.h",
  [("lists and map", "src/LRU.h LRU::insert, LRU::get, LRU::grow")], "none", "",
  [], na="That every iterator kept in the map points into the list its element is in is a relation between the shapes of two doubly linked lists and a hash table over unbounded histories; "
  "it needs a relational shape analysis, which none of the tools here provides, and a check per operation would have to assume the very relation.")
