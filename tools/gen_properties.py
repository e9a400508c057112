#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the list stays consistent and reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],
                 "observe_at":list(observe),"hook_needed":hook}})

SEM=["src/Semaphore.hpp","src/Semaphore.cpp","src/Mutex.cpp"]
RBS=["src/RingBufferSimple.hpp"]
RBG=["src/RingBufferGuarded.hpp","src/RingBufferSimple.hpp","src/Semaphore.cpp"]
POOL=["src/MemoryPoolBase.cpp","src/MemoryPoolBase.hpp","src/MemoryPoolDeleterBase.cpp"]
OP=POOL+["src/ObjectPool.hpp","src/ObjectPoolDeleter.hpp"]
BP=POOL+["src/BlockPool.hpp","src/BlockPoolDeleter.hpp"]
MQ=["src/MessageQueue.hpp","src/MessageQueue.cpp","src/MessageQueueBase.hpp","src/MessageQueueBase.cpp","src/RingBufferGuarded.hpp"]

p("C01","Semaphore permits are conserved and bounded under any interleaving",
  "For every interleaving of give and take calls from any number of threads, each call appears to happen at one instant: a take completes only by consuming a permit that exists, a give in bounded (bipolar) mode completes only while the count is below the maximum, and an unbounded give never blocks. The available count is never negative and never exceeds the maximum, and once no call is in progress it equals the initial count plus completed gives minus completed takes.",
  ["schedules","histories"],"every initial count, maximum, number of threads, per-thread sequence of give/take/getAvailableCount calls, and every interleaving (including spurious wake-ups and any choice of the waiter a notification wakes)",
  "Tests run a handful of fixed thread/loop counts under whatever schedule the OS happens to produce; they check final counts only and cannot choose the interleaving.",
  SEM,[("count updated only under the internal mutex","Semaphore.cpp Imple::_take/_give"),("wait loops re-check the condition","Semaphore.cpp Imple::_take/_giveWait")],
  [("availableCount","permits available","Semaphore::Imple"),("maxAvailableCount","bound in bipolar mode","Semaphore::Imple")],["Semaphore::take/give/getAvailableCount"])
p("C02","Semaphore never strands a waiter",
  "Whenever no call is making progress, no thread is still blocked in take while the available count is non-zero, and no thread is still blocked in give while the count is below the maximum. This holds for every number of simultaneous takers and givers and also when the user functor of another caller throws: its call must then be as if it had never been made, so the permit or room it gave back is available to the threads that are waiting.",
  ["schedules","histories"],"every mix of blocked and arriving givers and takers, with functors that throw or not, and every interleaving and wake-up choice",
  "A lost wake-up needs a particular interleaving of several waiters; tests use one waiter shape and generous sleeps, and never have a functor throw while others wait.",
  SEM,[("take signals a pending giver","Semaphore.cpp Imple::_takeNotify"),("give signals a pending taker","Semaphore.cpp Imple::_give"),("restoring the count when a functor throws","Semaphore.cpp Imple::take(operation)")],
  [("takePendingCount/givePendingCount","waiters","Semaphore::Imple")],["threads blocked in Semaphore::take/give at quiescence"])
p("C03","Semaphore functors run exactly once, exclusively, all-or-nothing",
  "A functor passed to give or take runs exactly once per completed call, on the calling thread, never at the same time as another functor of the same semaphore; for take the permit has already been deducted, for give it has not yet been added. If the functor throws (or is empty, which raises std::bad_function_call) the exception reaches the caller and the available count is what it would have been had the call never been made.",
  ["schedules","histories","fault_sequences"],"every sequence and interleaving of give/take calls with functors that return, throw arbitrary exceptions or are empty",
  "Tests have one throwing functor on one thread, with no contention and no throwing give.",
  SEM,[("functor invoked under the internal lock","Semaphore.cpp Imple::take/give(operation)"),("RAII restore of the count","Semaphore.cpp AvailableCountManager")],(),["functor invocations, getAvailableCount, exceptions seen by the caller"])
p("C04","Aborting a semaphore releases every waiter and is permanent",
  "After abort every thread blocked in take or give, however many there are, returns by a SemaphoreAborted exception, and every later give or take throws SemaphoreAborted without blocking, without running its functor and without changing the available count. Abort may be called repeatedly and concurrently with any operation, and destroying a semaphore releases the threads still blocked in it in the same way.",
  ["schedules","histories"],"every number of blocked takers and givers, every point at which abort (or destruction) happens relative to other calls, and every interleaving",
  "Tests abort with one kind of waiter at a fixed moment; a broadcast that wakes too few threads or an abort that races a waiter going to sleep is schedule dependent.",
  SEM,[("abort flag checked before every wait and after every wake","Semaphore.cpp _take/_giveWait/_give"),("broadcast to both conditions","Semaphore.cpp Imple::abort"),("destructor aborts and lets waiters leave","Semaphore.cpp ~Imple")],
  [("abortFlag","terminal state","Semaphore::Imple")],["exceptions thrown by blocked and later calls"])
p("C05","Semaphore construction limits and overflow",
  "For every pair of constructor arguments the initial count is the requested value clamped to 2^32-1; a maximum of zero means unbounded up to 2^32-1, and any other maximum is honoured exactly within 2^32-1 but never below the clamped initial count. A give at the absolute limit throws SemaphoreOverflow, leaves the count unchanged and the semaphore usable; a give below the maximum completes at once.",
  ["inputs","histories"],"every (initial, maximum) pair of size_t values, and every short sequence of operations starting from the resulting state, in particular near 0, 2^31, 2^32 and 2^64",
  "Tests construct a few small semaphores; the boundary values of a 64-bit argument narrowed to a 32-bit counter are never reached.",
  SEM,[("clamping of the initial count and maximum","Semaphore.cpp Imple ctor, doctorMaxAvailableCount"),("overflow check","Semaphore.cpp _giveWait")],(),["getAvailableCount, whether give blocks, SemaphoreOverflow"])
p("C06","RingBufferSimple is an exact bounded FIFO",
  "For every requested size the capacity is that size rounded up to a power of two within [2, 2^20], and the reported size, mask and number of bits agree with it. Any sequence of puts and gets returns exactly the values put, in order; a put on a full buffer throws RingBufferOverflow and a get on an empty one throws RingBufferUnderflow, and neither changes the contents, for any element type and no matter how many operations (beyond 2^32) have gone before.",
  ["inputs","histories"],"every requested size, every scalar or pointer element type, every put/get sequence of any length including counter wrap-around",
  "The test uses size 3, ints, ten puts and ten gets.",
  RBS,[("free-running counters masked to an index","RingBufferSimple.hpp RingBufferSimpleImple::get/put"),("power-of-two sizing","RingBufferSimple.hpp numBitsForNE/maskForNB")],
  [("getCount/putCount","free running 32-bit counters","RingBufferSimpleImple")],["get/put results and exceptions, getSize/getMask/getNumBits"])
p("C07","RingBufferGuarded is a linearizable blocking FIFO of the requested capacity",
  "Under any interleaving of producers and consumers every value put is returned by exactly one get, none is invented, lost or duplicated, and the order is that of a single FIFO queue consistent with the real-time order of the calls. A put blocks only while as many values as were requested at construction are held, a get blocks only while none is held, no call stays blocked once its condition ends, and on a ring in regular use the requested capacity (not the rounded-up one) is the limit.",
  ["schedules","histories"],"every requested capacity of at least one, primed or not, every number of producer and consumer threads and their call sequences, every interleaving",
  "The test streams pointers through one large ring and counts them; ordering across threads, small capacities and individual interleavings are not examined.",
  RBG,[("ring operations run inside the semaphore's lock","RingBufferGuarded.hpp get/put"),("bipolar semaphore bounds the contents","RingBufferGuarded.hpp ctor")],
  [("semaphore","counts held values","RingBufferGuardedBase")],["RingBufferGuarded::get/put results, blocked threads at quiescence"])
p("C08","RingBufferGuarded life cycle: prime, abort and flush",
  "A ring built for priming refuses get and put until prime has loaded exactly the requested number of values, obtained by calling the functor once per index in increasing order; prime is refused in any other state and flush is refused before abort. After abort every blocked or later get fails with an exception, no put blocks or adds a value, and flush hands each value still held to the functor exactly once, in FIFO order, until the ring is empty, however far the ring had been primed, used or flushed before.",
  ["histories","schedules","fault_sequences"],"every sequence and interleaving of prime, get, put, abort and flush calls over every requested capacity, with priming and flushing functors that may throw",
  "No test primes, flushes or misuses a ring; only get/put/abort on a running ring are exercised.",
  RBG,[("atomic state machine","RingBufferGuarded.hpp state"),("prime/flush","RingBufferGuarded.hpp prime/flush")],
  [("state","NeedsPriming/Ready/Terminal","RingBufferGuardedBase")],["exceptions, functor invocations and values delivered"])
p("C09","Pool memory is exclusive, aligned, large enough and undisturbed",
  "Every live object or block from a pool or slot of a message queue occupies memory aligned for a pointer, at least as large as what was created in it, inside the pool's own memory and disjoint from every other live one. No pool or queue operation and no write within one live object or block ever alters the contents of another or touches memory outside the pool, for any element type, element size (including sizes that are not a multiple of the word size), block length, derived type (including one whose pooled base is not its first base) and any order of creation and release.",
  ["inputs","histories","configurations"],"every pool size, element size and type shape, elements per block, and every sequence of create/release operations with arbitrary release order",
  "Tests use element sizes that are multiples of eight, single-inheritance types and do not inspect neighbouring blocks or run under a memory checker.",
  OP+BP+MQ,[("padded element stride","MemoryPoolBase.cpp Imple ctor, getPaddedTypeAllocSize"),("size check before construction","ObjectPool.hpp createObj; MessageQueue.hpp put/emplace"),("the released address is the block's address","ObjectPoolDeleter.hpp; MessageQueueBase.hpp CookedMemoryManager")],
  [("arena","raw memory","MemoryPoolBase::Imple, MessageQueueBase::Imple")],["addresses and contents of live objects, memory sanitizer"])
p("C10","ObjectPool objects live exactly once and failures leave the pool unchanged",
  "createObj constructs exactly one object of the requested type with exactly the forwarded arguments, and the returned pointer destroys it exactly once and returns its slot exactly once however ownership travels (moves, release to a shared_ptr, converted or reset pointers, any thread). Exhaustion throws RingBufferUnderflow, a type larger than the element size throws ObjectPoolElementSizeError, and a throwing constructor passes its exception on; in each case the pool holds as many free slots as before and all of its capacity (the requested size rounded up to a power of two) stays usable.",
  ["inputs","histories","fault_sequences"],"every pool size, type hierarchy, argument list, sequence of create/move/share/release operations and every position at which a constructor throws",
  "Tests cover one pool size, one throwing type and one release order.",
  OP,[("raw slot guarded while constructing","ObjectPool.hpp createObj RawMemoryManager"),("deleter destroys and returns","ObjectPoolDeleter.hpp operator()")],(),["constructor/destructor counts, exceptions, number of objects that can be created"])
p("C11","BlockPool blocks are freshly default-constructed and fully torn down",
  "getBlock returns a block of exactly the configured number of default-constructed elements (scalars are zero even in memory that was used before), and its deleter reports that number. Releasing the block by any route destroys each element exactly once and returns the block exactly once; if an element's constructor throws, those already built are destroyed, the exception reaches the caller and the pool is as before, and a request on an exhausted pool throws RingBufferUnderflow and changes nothing.",
  ["inputs","histories","fault_sequences"],"every element type, number of blocks and elements per block, every get/write/release sequence and every element at which construction throws",
  "Tests use doubles and a two-int struct with 4 or 24 elements and one throwing position.",
  BP,[("zeroing of raw memory","MemoryPoolBase.cpp getRawBlock"),("guarded array construction","BlockPool.hpp getBlock"),("element-wise destruction","BlockPoolDeleter.hpp operator()")],(),["element values, constructor/destructor counts, getNumElements, running statistics"])
p("C12","Pools hand each slot to one owner at a time under concurrency",
  "When any number of threads create and release objects or blocks of the same pool concurrently, no two live objects ever share memory, no slot is lost or duplicated, and a creation fails for exhaustion only if at some instant during the call every slot was in use. When all threads are done and everything is released, the full capacity can be created again.",
  ["schedules","histories"],"every number of threads, per-thread create/release sequence and every interleaving of them, including objects released by a thread other than their creator",
  "The pool tests are single-threaded.",
  OP+BP,[("ring of free slots guarded by a mutex","MemoryPoolBase.cpp getRawBlock/returnRawBlock")],(),["addresses of live objects, exhaustion exceptions, capacity at rest"])
p("C13","Pool statistics tell the truth",
  "In any single-threaded history the reported size, running count and low watermark of a pool are exactly its capacity, its free slots and the smallest number of free slots there has ever been. Under concurrent use every snapshot satisfies 0 <= low watermark <= size and 0 <= running count <= size, the watermark never rises and is never above a free-slot count that was certainly reached nor below the least one that could have been reached, and once no call is in progress the running count is exact again.",
  ["schedules","histories"],"every history of creations, failures and releases on one thread and every interleaving of them on several, with snapshots taken at any moment",
  "Tests read the statistics at a few points of a fixed single-threaded sequence.",
  POOL,[("two counters in one atomic word updated by compare-exchange","MemoryPoolBase.cpp getRawBlock/returnRawBlock")],[("runningState","running count and low watermark","MemoryPoolBase::Imple")],["getRunningStateStatistics"])
p("C14","MessageQueue delivers every message once, in order and intact",
  "Every message accepted by put or emplace is dispatched exactly once by exactly one getAndDispatch call, in the order of a single FIFO queue consistent with the real-time order of the calls, with the contents it was given, and is destroyed exactly once after its dispatch returns or throws. The wake-up functor, when given, runs exactly once per message obtained and before that message is dispatched.",
  ["schedules","histories"],"every queue depth, message size and mix of message types, put or emplace, every number of producers and dispatchers, and every interleaving",
  "Tests stream one message type from one producer to one consumer and only count them.",
  MQ,[("raw and cooked rings exchange slots","MessageQueueBase.cpp rawRingBuffer/cookedRingBuffer"),("RAII destruction after dispatch","MessageQueueBase.hpp CookedMemoryManager")],(),["dispatch calls, message contents, constructor/destructor counts"])
p("C15","MessageQueue capacity is exact and nobody is stranded",
  "A queue built for N messages (N at least one) accepts exactly N messages without dispatching: a producer blocks only while N are enqueued or being dispatched and proceeds as soon as one is disposed of, and a dispatcher blocks only while none is enqueued. Whenever nothing is making progress, no producer is blocked while a slot is free and no dispatcher is blocked while a message waits, also after failed constructions and dispatches that threw.",
  ["schedules","histories"],"every depth including 1 and non powers of two, every number of producers and dispatchers, and every interleaving",
  "Tests never fill a queue or block a producer deliberately.",
  MQ,[("raw ring primed with the requested number of slots","MessageQueueBase.cpp Imple ctor"),("slot returned after dispatch","MessageQueueBase.hpp CookedMemoryManager/RawMemoryManager")],(),["threads blocked in put/emplace/getAndDispatch at quiescence"])
p("C16","MessageQueue survives throwing messages and functors",
  "If constructing a message throws, the exception reaches the producer, nothing is enqueued and its slot is free again; if a wake-up functor or a dispatch throws, the exception reaches the dispatcher, that message is destroyed exactly once, is not dispatched again and its slot is free again. A message type larger than the element size is refused with MessageQueueElementSizeError, without blocking and without disturbing the queue; after any sequence of such failures the queue still has its full capacity and keeps delivering the other messages unharmed.",
  ["fault_sequences","histories","schedules"],"every sequence of successful and failing constructions, wake-ups and dispatches at any fill level, and every interleaving of them",
  "Tests have one throwing construction and one throwing dispatch on an otherwise empty queue, with no wake-up functor.",
  MQ,[("RawMemoryManager","MessageQueueBase.hpp"),("CookedMemoryManager","MessageQueueBase.hpp"),("size check before taking a slot","MessageQueue.hpp put/emplace")],(),["exceptions, constructor/destructor counts, remaining capacity"])
p("C17","MessageQueue abort and destruction are clean at any moment",
  "However abort or destruction interleaves with put, emplace and getAndDispatch, every call blocked at that moment or made later ends with an exception derived from std::runtime_error instead of blocking, reporting success or dispatching, and the process never terminates. Once abort has returned isAborted says so to derived classes, and never before abort was called. Every message ever constructed in the queue is destroyed exactly once: after its dispatch, by the failing call itself, or undispatched when the queue is destroyed.",
  ["schedules","histories","fault_sequences"],"every number of producers and dispatchers at any stage of their calls when abort or destruction happens, every fill level and every interleaving",
  "Tests abort only an idle consumer on an empty queue; the race windows between taking a slot, building the message, enqueueing it, dispatching and returning the slot are never hit on purpose.",
  MQ,[("abort of both rings","MessageQueueBase.cpp Imple::abort"),("flush on destruction","MessageQueueBase.cpp ~Imple"),("destructor aborts and lets threads leave","MessageQueueBase.cpp ~MessageQueueBase")],[("aborted","terminal state","MessageQueueBase::Imple")],["exceptions, constructor/destructor counts, process survival"])
p("C18","The dispatch lock excludes dispatching, and nothing else",
  "With dispatch locking enabled no message is dispatched while some thread holds the dispatch lock, at most one lock object holds it at a time, and enqueueing is never blocked by it. Ownership follows the lock object through moves, explicit unlock and lock, and destruction, so that it is released exactly once and dispatching resumes afterwards; when a held lock object is assigned over, what it held is released; with locking disabled asking for the lock throws MessageQueueDispatchLockingDisabled.",
  ["schedules","histories"],"every sequence of acquiring, moving, assigning, unlocking, relocking and destroying lock objects of one or several queues on any number of threads against dispatchers and producers, every interleaving",
  "Tests hold one lock across one sleep and check that one message was delayed.",
  MQ+["src/Mutex.cpp"],[("mutex held around dispatch","MessageQueueBase.cpp dispatchMessage"),("AutoDispatchLock ownership","MessageQueueBase.hpp/.cpp AutoDispatchLock")],[("locked/pMQB","ownership of the dispatch lock","AutoDispatchLock")],["overlap of dispatch and lock-held sections, blocked threads"])
p("C19","MessageQueue statistics, last message name and purge",
  "In any single-threaded history the reported size, running count and high watermark are exactly the requested depth, the number of slots in use and the most ever in use; under concurrency every snapshot keeps running count and high watermark within the depth, the watermark never falls, and the counts are exact again once no call is in progress. The name of the last dispatched message is that of the message most recently given to dispatch, even if that dispatch threw, and is \"[NONE]\" before any. Purging an otherwise idle queue destroys every enqueued message exactly once without dispatching it, leaves the queue empty and fully usable, and never blocks.",
  ["histories","schedules"],"every history of enqueues, failures, dispatches and purges, and every interleaving of producers and dispatchers with snapshots at any moment",
  "Tests read statistics around one or two messages and purge once.",
  MQ,[("two counters in one atomic word","MessageQueueBase.cpp rawWaitAndGet/rawPutAndNotify"),("name stored before dispatch","MessageQueueBase.cpp dispatchMessage"),("purge","MessageQueue.cpp purge")],[("runningState","running count and high watermark","MessageQueueBase::Imple")],["getRunningStateStatistics, getNameOfLastMessageDispatched, purge"])
p("C20","No heap use after construction",
  "Once constructed, semaphores, ring buffers, object and block pools and message queues never allocate from or return memory to the system heap in any successful operation: give and take (with a functor wrapped by reference or passed as an existing std::function), get, put, prime, flush, create and release, emplace, put, dispatch, dispatch locking, purge and statistics. This holds for every history, size and fill level, and construction and destruction leave no allocation behind.",
  ["histories","inputs"],"every component, configuration and operation sequence",
  "No test observes the allocator.",
  ["src/Semaphore.cpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp"],[("arena and rings allocated in constructors","MemoryPoolBase.cpp, MessageQueueBase.cpp"),("functors passed by reference wrapper","RingBufferGuarded.hpp get/put")],(),["calls to the allocator between construction and destruction"])
p("C21","Mutex: exclusion, try_lock, priority inheritance and error reporting",
  "At most one thread holds a Mutex at a time; lock waits for the holder, try_lock never waits and returns true exactly when it acquired the mutex, unlock lets one waiter in, and std::lock_guard and std::unique_lock work with it. Every lock the library creates (Mutex itself, those inside semaphores, rings, pools and the dispatch lock) uses the priority inheritance protocol and native_handle designates that same lock; any error the platform reports for lock, try_lock (other than busy) or unlock surfaces as std::system_error with that code, never as silent success. Destroying a Mutex gives back the lock and the memory it made.",
  ["schedules","histories","fault_sequences"],"every sequence of lock, try_lock, unlock and native-handle operations on any number of threads, every interleaving, and every error code the platform call may return",
  "There is no Mutex test; the Semaphore test exercises lock/unlock only.",
  ["src/Mutex.hpp","src/Mutex.cpp"],[("PTHREAD_PRIO_INHERIT attribute","Mutex.cpp ctor"),("error codes turned into system_error","Mutex.cpp lock/try_lock/unlock")],(),["lock/try_lock/unlock results, protocol of every mutex initialised, injected errors"])
p("C22","Hand-over through any component is a synchronisation point",
  "Everything a thread did before a give, a put, an emplace, a release of a pooled object or an unlock is visible to the thread whose matching take, get, dispatch, creation in the reused slot or lock follows it, and the library's own operations never access shared memory without synchronisation. So data protected or transferred only by these components is free of data races under every interleaving.",
  ["schedules"],"every interleaving of threads that exchange plain (non-atomic) data through semaphores, rings, pools, message queues, mutexes and dispatch locks",
  "Tests transfer read-only or thread-private data and run without a race detector.",
  ["src/Semaphore.cpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp","src/Mutex.cpp"],[("mutex protected transfer","Semaphore.cpp, MemoryPoolBase.cpp"),("sequentially consistent atomics","RingBufferGuarded.hpp, MemoryPoolBase.cpp, MessageQueueBase.cpp")],(),["happens-before order of all plain memory accesses, measured by compiler instrumentation"])
p("C23","Construction succeeds completely or leaves nothing behind",
  "For every component and all constructor arguments, including sizes whose product exceeds the address space, and when any heap allocation fails or the platform refuses a lock or condition variable, constructing either yields a component all of whose slots have the size asked for and are usable, or throws (std::bad_alloc where memory is short, std::system_error with the platform's code) with all memory and locks it obtained given back; nothing wraps around, terminates or is left behind, and the same construction can be repeated afterwards.",
  ["inputs","fault_sequences"],"every component, every constructor argument of every magnitude, every allocation and every initialisation of a lock made while constructing, which may fail",
  "Tests construct small components with all the memory they ask for; no allocation ever fails and no size comes near the limits of its type.",
  ["src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp","src/BlockPool.hpp","src/RingBufferSimple.hpp","src/RingBufferGuarded.hpp","src/Semaphore.cpp","src/Mutex.hpp"],[("members own what the constructor obtained","MemoryPoolBase.cpp, MessageQueueBase.cpp Imple ctor"),("sizes are checked before they are multiplied","MemoryPoolBase.cpp getArenaSize, BlockPool.hpp getBlockSize, MessageQueueBase.cpp getArenaSize")],(),["exceptions of constructors, allocator balance, use of every slot"])
p("C24","Components are independent and compose",
  "However many components exist and are used at once, an operation on one never blocks, wakes, changes or destroys anything in another; user code that a component runs (functors, constructors, destructors, wake-up calls, dispatches) may use every other component, and creations within constructors and messages posted within a dispatch may use the same one, with the same guarantees as from outside. A pipeline built of them (credits, pool, ring, queue) passes every item on exactly once, in order, and comes to rest only when done.",
  ["schedules","histories"],"every set of components, every program over them with nested calls, every interleaving",
  "Tests use one component at a time and never call one from the user code of another.",
  ["src/Semaphore.cpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp","src/MessageQueue.hpp","src/ObjectPool.hpp","src/BlockPool.hpp","src/Mutex.cpp"],[("no state outside of the objects","all of src"),("no internal lock is held while user code runs, save the semaphore's own around its functor and the dispatch lock around a dispatch","Semaphore.cpp, MessageQueueBase.cpp dispatchMessage")],(),["blocked threads at rest, statistics, live ranges, order of values per component"])
p("C25","What an operation does is bounded; waiting threads sleep",
  "An operation on a constructed component that need not wait does a bounded amount of work: at most a constant plus an amount proportional to the size of one element, block or message. It does not grow with the capacity, with how full the component is, with what happened before, or with what else exists. This holds for take, give, get, put, creation, release, emplace, dispatch and statistics, also when they fail or come after an abort; it excludes construction, destruction, prime, flush, purge and abort, and what user code does itself. A thread that has to wait sleeps: it does nothing until there may be something for it.",
  ["histories","schedules"],"every component, every capacity, every history of operations, every fill level, any number of waiting threads",
  "Tests do not measure what operations cost; the timing is printed at most, with small components.",
  ["src/Semaphore.cpp","src/RingBufferSimple.hpp","src/RingBufferGuarded.hpp","src/MemoryPoolBase.cpp","src/MessageQueueBase.cpp","src/Mutex.cpp"],[("free blocks and messages kept in rings, indexed by masked counters","RingBufferSimple.hpp, MemoryPoolBase.cpp, MessageQueueBase.cpp"),("condition variables, not polling","Semaphore.cpp _take, _giveWait")],(),["executed branches, memory accesses and synchronisation operations per call, measured by compiler instrumentation"])
p("C26","The types decide what compiles, and what compiles works",
  "Ring buffers are made of every non-constant scalar type (numbers, enumerations, pointers to objects, member pointers, nullptr_t) and of nothing else; a ring of T* takes and gives exactly T*, keeping the pointed-to type and its constness. An object pool creates T, or a class publicly derived from a T whose destructor is virtual, if its destruction cannot throw; a block pool takes default constructible types whose destruction cannot throw; a message queue takes movable classes publicly derived from MessageBase. Whatever is outside is refused by the compiler, never compiled into something that misbehaves; whatever is inside compiles and works, with arguments perfectly forwarded. Components can be neither copied nor moved; what they hand out (pool pointers, dispatch locks) can be moved and not copied. The headers can be included in any choice and order in any number of translation units, and everything public is usable from a program linked with the shared library as it is shipped, where whatever is not exported is hidden: its functions are found, its exceptions are caught by their types.",
  ["inputs"],"every element, object and message type, every constructor signature and argument category, every use of a component as a value, every set of included headers",
  "Tests use a dozen types, all of them acceptable; nothing checks what the compiler has to refuse, and each test includes one or two headers in a single translation unit.",
  ["src/RingBufferSimple.hpp","src/RingBufferGuarded.hpp","src/ObjectPool.hpp","src/BlockPool.hpp","src/MessageQueue.hpp","src/ObjectPoolDeleter.hpp","src/BlockPoolDeleter.hpp","src/Semaphore.hpp","src/Mutex.hpp"],[("compile-time assertions","RingBufferSimple.hpp, ObjectPool.hpp createObj, BlockPool.hpp, MessageQueue.hpp put and emplace"),("pointer specialisations","RingBufferSimple.hpp, RingBufferGuarded.hpp"),("deleted copies and moves","every header")],(),["what the compiler accepts and refuses; results of the programs it accepts"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
