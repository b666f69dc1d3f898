AI = "abstract interpretation of compiler IR (polyhedra facts, content measures, buffer typestate)"
AINOTE = ("Sound for all sizes, contents and element types under the stated assumptions (no size wrap-around, no aliasing of "
          "arguments with elements); loops are summarised, not unrolled. Trusts clang's lowering and the analysis in lib/.")

prop("C01", "A growable array behaves exactly as the sequence of its elements",
     "After any operation on a growable array its elements are exactly those of the corresponding mathematical sequence: "
     "pushing and emplacing append, popping removes the last, reserving and growing change nothing, resizing and extending cut or default-extend, "
     "clearing empties, cloning yields an independent equal sequence and moving leaves the source empty. "
     "Every element is constructed once and destroyed once, storage is released exactly once, accesses stay within the storage, "
     "and element access outside the current length terminates the program instead of proceeding.",
     ["inputs", "histories"], "every reachable state (length, capacity, contents), every argument and every element type: plain bytes, move-only, copyable",
     "Tests push a handful of integers; growth, resize and clone paths with non-trivial element types and boundary lengths are not reached.",
     ["rpp/vec.h", "rpp/slice.h"], [("length/capacity bookkeeping and element lifetime", "rpp/vec.h")], AI, "proof", AINOTE)

prop("C02", "A queue is a first-in first-out sequence in a ring of any position",
     "Whatever the position of the ring, a queue holds exactly the pushed elements that have not been popped, in order: pushing appends, popping removes the oldest, "
     "indexing, iteration, first, last and next-to-last access address the right element, growing, cloning and moving keep the sequence, and emptying clears it. "
     "Removing the first element equal to a value removes exactly that one and keeps the others in order (decided for rings of up to five slots). "
     "Every element is constructed once and destroyed once, storage is released exactly once and no access leaves the storage. "
     "Access to an element that does not exist terminates the program.",
     ["inputs", "histories"], "every ring position (contiguous and wrapped), length, capacity, argument and element type",
     "Wrapped rings combined with growth, cloning and erasure need particular push/pop histories that no test performs.",
     ["rpp/queue.h"], [("ring index arithmetic", "rpp/queue.h"), ("two-part move when growing a wrapped ring", "rpp/queue.h")], AI, "proof", AINOTE)

prop("C03", "An optional holds its value exactly while it reports having one",
     "An optional destroys, replaces, moves and clones its value exactly as its engaged flag says: constructing or assigning a value engages it, assigning from or moving "
     "an empty optional empties the target, clearing destroys the value once, cloning copies independently, and reading an empty optional terminates the program. "
     "No value is leaked, destroyed twice, or read while absent.",
     ["inputs", "histories"], "engaged and empty sources and targets of every operation, for plain, move-only and copyable values",
     "Lifetime mistakes on the empty/engaged combinations leave observable values intact in small tests.",
     ["rpp/opt.h", "rpp/storage.h"], [("engaged flag and stored value", "rpp/opt.h")], AI, "proof", AINOTE)

prop("C04", "A box owns exactly one heap object and releases it exactly once",
     "A box owns its object exclusively: every operation that replaces, moves, clears or destroys a box leaves each heap object with one owner or destroyed and its storage returned "
     "exactly once to the allocator it came from; cloning makes an independent object; dereferencing an empty box terminates the program.",
     ["inputs", "histories"], "null and owning boxes, plain, move-only and copyable objects",
     "Leaks and double releases are invisible to value assertions.",
     ["rpp/box.h", "rpp/allocator.h"], [("unique ownership", "rpp/box.h")], AI, "proof", AINOTE)

prop("C05", "A shared object lives exactly as long as some counted handle refers to it",
     "The count of a shared object equals the number of its handles after every operation (duplicating, moving, assigning, clearing, recovering a handle from the object), for the plain and the "
     "atomic variant: it is destroyed and its storage released exactly once, when the last handle goes, and never touched after the handle in use gave up its reference. "
     "For the atomic variant this holds under every interleaving: the count is only changed by single atomic operations whose result decides who destroys.",
     ["inputs", "histories", "schedules"], "every combination of null, distinct and identical blocks, any number of other holders, any interleaving with them",
     "A lost or doubled release needs an interleaving between a decrement and its test, or a rare aliasing of handles.",
     ["rpp/rc.h", "rpp/pos/thread_pos.cpp"], [("count per handle", "rpp/rc.h"), ("atomic counter", "rpp/pos/thread_pos.cpp")],
     AI + "; use-after-release typestate for concurrent holders", "proof", AINOTE)

prop("C06", "A variant's index always names the alternative that is stored in it",
     "Constructing, assigning, moving, cloning, destroying and matching a variant always act on the alternative its index names: matching calls the handler of exactly that alternative with the stored object, "
     "moving and cloning reproduce alternative and value, and each stored object is constructed and destroyed exactly once as its own type, for small variants (branching) and large ones (table).",
     ["inputs", "histories"], "every stored alternative of variants of 1, 3, 8 and 9 alternatives, every pair of alternatives for assignment",
     "Tests exercise a few alternatives of small variants; mistakes confined to one index or to the table form stay unseen.",
     ["rpp/variant.h"], [("index dispatch", "rpp/variant.h")], AI, "proof", AINOTE)

prop("C07", "A stored callable runs, moves and dies as the closure it was made from",
     "A type-erased callable invokes the closure it was constructed from, with the arguments passed through unchanged; moving transfers the closure and leaves the source empty, assigning destroys the old closure first, "
     "destruction destroys the captured objects exactly once, and calling an empty callable terminates the program.",
     ["inputs", "histories"], "empty and non-empty sources and targets, closures with owning captures of different sizes and trivially copied ones",
     "Destruction and relocation of captures happen behind function tables that value tests do not observe.",
     ["rpp/function.h"], [("operation table", "rpp/function.h")], AI, "proof", AINOTE)

prop("C08", "Pairs, tuples, arrays and slices hold and address exactly their elements",
     "Pairs, tuples and fixed arrays construct, copy, move, clone and destroy each element exactly once and in its own place; accessors, iteration bounds and destructuring reach the element asked for; "
     "slices and arrays terminate the program when an index, front/back or sub-slice lies outside them, for every 64-bit argument including ones whose sum wraps around.",
     ["inputs"], "all element combinations of clonable and copyable types, all indices and all sub-slice arguments",
     "Overflowing bounds and per-element lifetime need inputs and element types that tests do not use.",
     ["rpp/pair.h", "rpp/tuple.h", "rpp/array.h", "rpp/slice.h"], [("element storage", "rpp/tuple.h"), ("bounds checks", "rpp/slice.h")],
     AI + "; wrap-around arithmetic", "proof", "Sound for all lengths, indices and element types; trusts clang's lowering and the analysis in lib/.")

prop("C09", "A stack is last-in first-out and never reads below its bottom",
     "A stack returns elements in the reverse order of pushing: push and emplace put an element on top, pop removes and destroys exactly the top, top addresses it, cloning and moving keep the sequence, clearing empties it, "
     "every element is constructed and destroyed once, and popping or reading the top of an empty stack terminates the program.",
     ["inputs", "histories"], "every length, capacity, content and element type",
     "Growth with non-trivial elements and access to empty stacks are not sampled.",
     ["rpp/stack.h", "rpp/vec.h"], [("top at the end of the storage", "rpp/stack.h")], AI, "proof", AINOTE)

prop("C12", "A string holds and compares exactly its bytes, including embedded zeros",
     "A string or view denotes a fixed sequence of bytes: constructing, cloning, moving, appending, concatenating, sub-slicing and writing at an offset produce exactly the bytes asked for and never touch memory outside the buffer; "
     "equality and ordering compare every byte and the length, whatever bytes occur; file-name and suffix splitting cut at the last separator wherever it is; terminating adds exactly one zero; "
     "and an offset, index or range outside the string (including one whose sum wraps around) terminates the program. Buffers are released exactly once.",
     ["inputs", "histories"], "every length, capacity, byte content and 64-bit argument",
     "Embedded zero bytes, separators at the ends and wrapping offsets are not in the tests' literals.",
     ["rpp/string0.h", "rpp/string1.h"], [("byte buffer", "rpp/string1.h"), ("views and comparison", "rpp/string0.h")],
     AI + "; quantified content facts over scanning loops", "proof", AINOTE)

prop("C10", "A heap keeps its elements as a multiset with the least one on top",
     "After any operation the heap holds exactly the elements pushed and not yet popped, and its top is not greater than any other element, so popping delivers them in non-decreasing order. "
     "Pushing and popping move elements only by exchanging a slot with its parent or smaller child where they are out of order, and stop only where no parent is greater than a child; growing, cloning and moving keep the heap; "
     "every element is constructed and destroyed once; reading or popping an empty heap terminates the program.",
     ["inputs", "histories"], "every heap size, shape and element order (any strict weak order), plain, move-only and copyable elements",
     "An order mistake shows only for particular shapes (a last right child, ties, two elements) and histories.",
     ["rpp/heap.h"], [("sifting", "rpp/heap.h")], AI + "; inductive step of the sifting loops over all weak orders", "proof", AINOTE)

TR = "effect-trace analysis of compiler IR (all paths, generic loop iterations) against per-operation contracts"
TRNOTE = ("Every path of every listed operation; loops by a first and a generic iteration. Trusts clang's lowering, the analysis in lib/, "
          "and the documented behaviour of the kernel and C library.")

prop("C14", "Ranges handed out never overlap, fit the request, and free space is never lost",
     "At every moment the blocks of a Range_Allocator tile the whole heap in order without gap or overlap, no two neighbouring blocks are free, every free block is in the list of its size class and nothing else is. "
     "allocate returns a range inside one free block, at a multiple of the alignment and at least as long as asked for, or nothing when no block in the searched classes is large enough, for every size however large; the rest of the block stays free. "
     "No other range moves or changes. free makes the space available again, merged with free neighbours on both sides. The statistics equal the state. Moving an allocator carries all of it over, leaves the source empty and both usable; destroying gives every free block back once. Every access to the shared state holds the lock.",
     ["inputs", "histories", "schedules"], "any heap, any range freed, any size and alignment; up to four blocks looked at by one allocation and seven by one release",
     "Fragmentation patterns decide which neighbours exist and which list a remainder joins; tests run a few sequences and never see overlap.",
     ["rpp/range_allocator.h"], [("allocation and release", "rpp/range_allocator.h")],
     "shape analysis of compiler IR: the block structure is materialised lazily and its invariant re-established after each operation, with linear facts over sizes", "bounded",
     "Lists longer than two blocks are not followed; a range that was not allocated here or was freed before must not be freed; the heap is smaller than 2^63.")

prop("C15", "Types enforce ownership: no accidental copy, no write through const",
     "No owner or handle (container, string, box, counted handle, callable, thread, lock, task, event, socket, range allocator) can be copied implicitly; each can be moved exactly where the interface says, also when it is inside an Opt, Pair, Tuple, Array or Variant, "
     "and clone exists exactly when the elements can be cloned or copied. Nothing can be written through a constant container, handle, iterator, slice or view; keys in a map cannot be changed in place. Handles of different allocators, pointees or kinds do not mix. "
     "A callable too large or too strictly aligned for its storage, an incomplete match, duplicate alternatives, wrong indices, counts, argument types and results are rejected. "
     "Every operation the interface offers compiles for copyable, move-only and clonable elements and for any allocator.",
     ["inputs"], "all programs, as far as the interface decides them", "A test that compiles shows nothing about programs that must not, and templates are only checked where they are instantiated.",
     ["rpp/vec.h", "rpp/queue.h", "rpp/stack.h", "rpp/heap.h", "rpp/map.h", "rpp/string0.h", "rpp/box.h", "rpp/rc.h", "rpp/opt.h", "rpp/variant.h", "rpp/function.h", "rpp/tuple.h", "rpp/pair.h", "rpp/array.h", "rpp/storage.h", "rpp/thread.h", "rpp/pool.h", "rpp/async.h"],
     [("types", "rpp/vec.h"), ("handles", "rpp/rc.h"), ("callables", "rpp/function.h")],
     "compile-fail witnesses with accepted twins, and instantiation of every operation, judged by the type checker", "proof",
     "The witnesses enumerate kinds of misuse, not programs; a Vec of pairs cannot be resized or made with a length, since a Pair is never implicitly empty.")

prop("C24", "Equal keys hash equally, all of a key counts, occupied slots are nonzero",
     "For every key type: two keys that compare equal hash equally however they are represented (0.0 and -0.0, a String and a String_View of the same bytes, other capacities and addresses, the same text in other memory). "
     "Hashing reads only the key, changes nothing, does not stop, and every byte or component of the key takes part in the result. hash_nonzero never returns zero, the mark of an empty slot.",
     ["inputs"], "any contents; texts of each length to 35 and chosen lengths to 257, vectors of two to four components",
     "A key that hashes differently from its equal is lost only for the one representation a test does not use.",
     ["rpp/hash.h", "rpp/string0.h", "rpp/vmath.h", "rpp/log.h"], [("hash functions", "rpp/hash.h"), ("strings", "rpp/string0.h"), ("vectors", "rpp/vmath.h")],
     "symbolic value flow over compiler IR with the mixing steps as exact terms: results for differently represented equal keys must be the same term", "bounded",
     "NaN keys never equal anything and are not compared; how well hashes spread is not judged.")

prop("C32", "Bit counts, alignment, powers and scalar helpers match their definitions",
     "For every argument: popcount counts the bits set, ctlz the zeros before the highest bit, log2 is that bit's position, prev_pow2 and next_pow2 are the nearest powers of two (0 for 0), "
     "align and align_pow2 round up to a multiple, abs is the magnitude, pow multiplies exactly and never overflows on the way to a result that fits, kilobytes and so on scale by powers of 1024, "
     "limits are those of the type, min, max, clamp, lerp, sign, and the other scalar helpers are their formulas. None of them relies on undefined shifts or overflow.",
     ["inputs"], "every 32- and 64-bit argument; every alignment that is not zero (those not a power of two: 1 to 63 and chosen values); exponents 0 to 70",
     "The containers size themselves with these helpers; one wrong boundary value (2^31, 2^63, 0) is reached by no test.",
     ["rpp/math.h", "rpp/impl/math.cpp", "rpp/limits.h"], [("bit counting and powers", "rpp/impl/math.cpp"), ("scalar helpers", "rpp/math.h"), ("limits", "rpp/limits.h")],
     "bit-precise dataflow over compiler IR with a decision diagram per bit, exact value flow for scalar functions, compile-time evaluation for limits", "bounded",
     "Results that do not fit, log2 of 0, abs of the least integer and alignment 0 are not specified; a negative signed exponent is outside the domain (the loop does not end).")

prop("C26", "Profiling books every scope and allocation where it belongs, under its locks",
     "For every sequence of frames and scopes: entering opens the child of that exact location under the current scope (or a new one) and starts and counts that child alone; leaving adds the elapsed "
     "time to the scope left and returns to its parent; a scope's own time is its total less its children's; begin_frame gives one fresh root and the time since the previous frame; outside a frame "
     "nothing is recorded. Every allocation and release is booked once on its allocator's account, with the live set and high-water mark; unknown releases and double allocations are warned of. Iterating visits exactly each thread's "
     "last finished frame. finalize runs every finalizer once, reports every account and frees everything. All shared state is touched only under its lock, a thread's frames are dropped only when no one "
     "else can reach them, and nothing is logged with an account lock held, so a log callback may allocate.",
     ["inputs", "schedules", "histories"], "every timing tree of up to 4 (own times: 5) scopes at every position; every state of thread, queue and accounts up to two or three entries; times and sizes symbolic",
     "Tests open each scope once and never look at the result; a deadlock needs a callback that allocates.",
     ["rpp/impl/profile.cpp", "rpp/profile.h"], [("frames, scopes, accounts and finalizing", "rpp/impl/profile.cpp"), ("iteration, scopes and thread end", "rpp/profile.h")],
     "exact value flow over compiler IR with opaque containers, a lock set for every access, and stale-reference detection", "bounded",
     "Counters do not wrap. The clock's own monotonicity is the operating system's.")

prop("C20", "Locks are taken in one order and no user code runs under them",
     "Over the whole library: no two threads can wait for each other's mutex forever, because the order in which mutexes are taken has no cycle, across all call chains (allocation accounting, logging and the "
     "formatting of messages included) and across every function that takes one. A mutex is released on every path out of the function that took it and never released unheld. Code of the user - constructors and "
     "destructors of pooled objects, tasks resumed, finalizers, visitors - runs with no lock of the library held; a log callback runs with the log's lock alone. A thread waits on a condition only while "
     "holding that condition's mutex and no other, never joins, polls or blocks with a lock held, and no coroutine suspends with one.",
     ["schedules", "inputs"], "every function of the library and every path of its call graph",
     "A deadlock needs two threads at two places at once, or a callback the tests do not install.",
     ["rpp/thread0.h", "rpp/pool.h", "rpp/impl/profile.cpp", "rpp/impl/log.cpp", "rpp/alloc1.h", "rpp/range_allocator.h"],
     [("pool of workers and events", "rpp/pool.h"), ("accounts and frames", "rpp/impl/profile.cpp"), ("pool allocator", "rpp/alloc1.h"), ("heap ranges", "rpp/range_allocator.h"), ("log", "rpp/impl/log.cpp")],
     "held-lock dataflow per function, call-graph summaries of what is acquired, run and waited for, and cycle detection", "proof",
     "Two mutexes of one class count as one. A failed assertion ends the program and is not followed. Warnings of misused memory aside, a log callback allocates but does not use the log.")

prop("C25", "Every message reaches every subscriber once, whole, and in its form",
     "For every level, location, message and set of subscribers: a message is formatted with its arguments, written to standard output and to the open log file in the same form (time, level, thread, location, "
     "indentation and text, each in its place), and given to each current subscriber exactly once with the same level, thread, time, location and text - all under the log's lock, so lines of different threads "
     "never mix. Subscribing gives a token that is not in use and never was; unsubscribing removes that subscriber and no other. Scopes indent by one step and restore it, per thread. A fatal message ends the program; "
     "an assertion that holds does nothing, evaluates its condition once, and one that fails reports the text of its condition and its place before ending. Two locations are equal exactly when file, line and function are.",
     ["inputs", "histories"], "every level; up to two subscribers before and after; file open or not; all other values symbolic",
     "Tests print; nothing reads the lines back, and no callback is ever subscribed.",
     ["rpp/impl/log.cpp", "rpp/log.h", "rpp/log_callback.h"], [("output and subscribers", "rpp/impl/log.cpp"), ("levels, assertions and locations", "rpp/log.h")],
     "exact value flow over compiler IR with the operating system's calls as opaque events", "bounded",
     "A subscriber may allocate and format but does not itself log, subscribe or unsubscribe: it runs under the log's lock. Tokens do not wrap around.")

prop("C23", "Reflection and type traits describe the types as they are",
     "Every reflection table lists exactly the fields the type has: each entry names a member, at its real offset and of its real kind, in order, none twice, and every byte of state is covered by an entry. "
     "Enumeration tables list every enumerator with its value and the stated default. Walking a record or enumeration visits each entry once, in order, with that field's address, also for const objects. "
     "Names compare as text. Type traits, concepts, and list operations (same, distinct, index, choose, reverse, enumerate, all, record, enum) give the mathematically right answer for every type.",
     ["inputs"], "all reflected types of the library (instantiated over scalars, strings and containers); traits over 20 types with all qualifications",
     "Printing, hashing and storage are selected by these answers; a table that misses a field compiles and prints plausible text.",
     ["rpp/reflect.h", "rpp/utility.h"], [("tables and walks", "rpp/reflect.h"), ("traits, lists and names", "rpp/utility.h")],
     "tables read as IR constants and compared with compiler record layouts and the syntax tree, value flow of the walks, compile-time witnesses over a type matrix", "proof",
     "Function and FunctionN list no fields on purpose. User-written tables are the user's; the macros they use are the library's.")

prop("C16", "Synchronisation primitives do what their names say under any schedule",
     "Locking, unlocking, waiting and signalling act on the right underlying object exactly once and never continue after a failure; trying to lock reports success exactly when the lock was taken; "
     "a scoped lock releases every mutex it took exactly once, also when it is moved or assigned. Atomic operations are single indivisible read-modify-writes with acquire/release ordering that return the "
     "documented old or new value. A flag's block returns only after the flag was signalled, survives spurious and interrupted wake-ups, cannot miss a signal, and signalling wakes every waiter. "
     "Sleeping lasts at least the requested time; the performance counter is the monotonic clock in nanoseconds; joining and detaching an empty handle do nothing.",
     ["inputs", "schedules", "faults"], "every path of every primitive, every result and error of the underlying system call, every interleaving of waiters and signallers",
     "Lost wake-ups, wrong orderings and error paths need an interleaving or a failing system call that tests cannot arrange.",
     ["rpp/pos/thread_pos.cpp", "rpp/thread0.h"], [("futex flag", "rpp/pos/thread_pos.cpp"), ("mutex, condition and atomics", "rpp/pos/thread_pos.cpp"), ("scoped lock", "rpp/thread0.h")],
     TR, "proof", TRNOTE)

prop("C17", "A thread runs its closure once; a future is completed only after its result",
     "Starting a thread moves the closure into the new thread, where it is called exactly once, destroyed and its storage released; a thread handle is joined or detached exactly once, on destruction or assignment at the latest, "
     "and moving it transfers that duty. A promise stores its value before it releases waiters, and waiting takes the value only after it was stored. "
     "Spawning runs the given function once with the given arguments, completes the returned future with its result, and keeps the shared state alive until both the new thread and every future are done with it.",
     ["inputs", "schedules", "histories"], "empty and running handles, every interleaving of the new thread with its creator, value and void results",
     "Double joins, leaks of closures and results published too early depend on timing and are invisible to value tests.",
     ["rpp/thread.h"], [("thread entry and closure ownership", "rpp/thread.h"), ("promise fill and block", "rpp/thread.h"), ("spawn", "rpp/thread.h")], AI, "proof",
     "The entry function is analysed on the state that started it. Relies on C16 (primitives) and C05 (counted handles).")

prop("C21", "File, socket and event operations are complete, leak nothing and report failures",
     "Reading a file yields every byte it holds however the kernel splits the transfer; writing creates or replaces the file with exactly the given bytes and reports success only then; a failing system call is reported, never treated as data, "
     "and an interrupted one is retried. The modification time and the write watcher report what the file system says. Addresses carry the given port and address; sending and receiving pass exactly the given packet and return the real length and sender. "
     "Every descriptor is used only while open, closed exactly once by whoever owns it last (moves and assignments transfer or close it), and never leaked on any path. "
     "Waiting for any event watches every given event without limit, survives signals and returns an index that is ready.",
     ["inputs", "faults"], "every path, every result and error of every system call, any number of partial transfers and of events",
     "Short transfers, interrupted calls and failing descriptors cannot be provoked by the tests.",
     ["rpp/pos/files_pos.cpp", "rpp/pos/net_pos.cpp", "rpp/pos/async_pos.cpp", "rpp/files.h"],
     [("read and write", "rpp/pos/files_pos.cpp"), ("udp sockets and addresses", "rpp/pos/net_pos.cpp"), ("events", "rpp/pos/async_pos.cpp"), ("write watcher", "rpp/files.h")],
     "descriptor typestate and effect-trace analysis of compiler IR with ghost transfer counts (inductive loop relations)", "proof", TRNOTE)

prop("C18", "A coroutine's result is delivered once and its frame freed exactly once",
     "A task and its coroutine agree on who frees the frame: whoever finishes last, the task handle's destruction or the coroutine's end, destroys it, exactly once, in every interleaving; "
     "neither touches the frame after handing it over. A coroutine that awaits a task is either registered before the task finishes and then resumed exactly once by it, or not suspended at all. "
     "The result is stored before waiters are released and is what awaiting or blocking delivers. Moving a task transfers it and assignment gives the old one up first; "
     "a continuation passed to then is kept with the coroutine until it has run. Destroying a task something waits for terminates the program.",
     ["schedules", "histories"], "every state the other side can have left, value, copied and void results, empty and full handles",
     "The races between a finishing coroutine and its handle's destruction or awaiter need an exact interleaving.",
     ["rpp/async.h"], [("final suspension and task destruction", "rpp/async.h"), ("awaiting", "rpp/async.h"), ("promise results", "rpp/async.h"), ("continuations", "rpp/async.h")],
     "protocol analysis of compiler IR: every operation's atomic step with the other side's state arbitrary", "proof",
     "Assumes one waiter per task. Relies on C16 for atomics and flags. The body of then() is analysed up to its first suspension and on its moves; later suspensions follow the protocol of the others.")

prop("C11", "A map holds exactly the keys inserted and not erased, each with its latest value",
     "After any sequence of insertions, lookups and erasures a key is found exactly when it was inserted and not erased since, with the value last given for it; the length is the number of such keys and iteration visits each of them once. "
     "Probing starts at the key's ideal slot, passes only slots that the table's order excludes, wraps around, and ends; inserting displaces only entries nearer to their ideal slot and loses none, and returns the place of the new value; "
     "erasing closes the gap behind the entry. Growing, reserving, cloning and moving keep all entries, the table is never full, and every key and value is constructed and destroyed once. Looking up or erasing an absent key with get or erase terminates the program.",
     ["inputs", "histories"], "every capacity, every table content satisfying the invariant, every hash value and every path of every operation",
     "Displacement chains, wrapped-around runs and colliding hashes occur only for particular key sets and histories.",
     ["rpp/map.h"], [("insertion and displacement", "rpp/map.h"), ("lookup", "rpp/map.h"), ("erasure and gap closing", "rpp/map.h"), ("growth", "rpp/map.h")],
     AI + "; inductive step of the probe loops over every table satisfying the robin-hood invariant", "proof",
     "Assumes key equality is an equivalence that agrees with the hash (C24) and that sizes do not wrap.")

prop("C19", "Every scheduled coroutine is run once, by a worker that was woken for it",
     "A coroutine scheduled on a pool is added to exactly one worker's queue, under that worker's lock, and that worker is woken so that the wake-up cannot be missed; each worker waits only when it has found its own queue empty and the pool running under its lock, "
     "runs every coroutine it takes exactly once, and runs it without holding any lock. A coroutine waiting for an event is handed to the event thread together with its event, the event thread is woken, no wake-up is lost between taking events over and resetting the wake-up event, "
     "and when an event becomes ready exactly its own coroutine is scheduled while every other pending event stays paired with its coroutine. Locks are taken in one order, never twice, never held while waiting for events or threads, and always released. "
     "Destroying the pool announces the shutdown before it wakes every worker under its lock and the event thread, waits for all threads before freeing what they use, and destroys each coroutine left in a queue once. Waiting for a number of milliseconds starts a one-shot timer for exactly that time and hands it to the pool; asynchronous reads and writes pass path and data through unchanged.",
     ["schedules", "histories"], "any number of workers, queued coroutines and pending events, with everything other threads may change arbitrary whenever the lock is not held",
     "Lost wake-ups, lock-order cycles and unlocked accesses show only under particular interleavings of workers, the event thread and the destructor.",
     ["rpp/pool.h", "rpp/pos/asyncio_pos.cpp"], [("scheduling", "rpp/pool.h"), ("worker loop", "rpp/pool.h"), ("event loop", "rpp/pool.h"), ("construction and shutdown", "rpp/pool.h")],
     "path and lockset analysis of compiler IR: thread-modular, with loops over queues and lists summarised by invariants", "proof",
     "Relies on C01, C02, C16 and C17 for containers, primitives and events. The unlocked look at whether a queue is empty is treated as a hint. Coroutines must not be scheduled on a pool that is being destroyed; events still pending at destruction are dropped with their coroutines unresumed.")

prop("C13", "Allocators hand out exclusive, large enough, aligned memory and release it once",
     "Region memory belongs to its thread, starts after everything the open regions already use, lies wholly inside the current chunk, is as long as asked for and aligned for every type; ending a region makes exactly what it used available again, in whatever chunks that was, "
     "keeps what outer regions use, releases every chunk it removes and never the thread's first one, and size and depth tell what is in use. Using a region that is not the current one terminates the program, as does nesting too deeply. "
     "Free lists and pools return an object built once from the arguments in memory nobody else has, at least as large as the object and a list link, reuse exactly the nodes given back, lose none when moved or assigned, and release each once; pools touch their list only under their own lock and never run constructors or destructors under it. "
     "The malloc front end releases what it allocates once, counts and records each allocation and release under one name with its address and size, records a release before the address can be handed out again, and ignores null.",
     ["inputs", "histories", "schedules"], "any list of chunks and free nodes, any sizes, every path of every operation",
     "Chunk boundaries, leftovers spanning several chunks, and races on a pool's list appear only for particular sizes, histories and interleavings.",
     ["rpp/impl/alloc.cpp", "rpp/alloc0.h", "rpp/alloc1.h"],
     [("regions", "rpp/impl/alloc.cpp"), ("free list", "rpp/alloc0.h"), ("pools and Mallocator", "rpp/alloc1.h"), ("malloc front end", "rpp/impl/alloc.cpp")],
     "path analysis of compiler IR with unfolded lists and a ghost sum of used sizes related through the loops", "proof",
     "Assumes sizes do not wrap and malloc aligns to 16 bytes. Range_Allocator is C14.")

prop("C22", "Formatting measures what it writes and writes every value as specified",
     "For every kind of value (numbers, text, containers, maps, handles, optionals, pairs, tuples, variants, records, enumerations, vectors, matrices, storage), the measured length is the length of the text written, "
     "each part is written directly behind the part before it, every element or field appears exactly once in order with the documented brackets, names and separators, and the position behind the text is returned. "
     "A format string is read completely: %% gives a percent sign, any other % the next argument, every other character itself; a wrong number of arguments terminates the program. format and concat return exactly the text, in storage that holds it. "
     "Numbers go through a buffer with room for the terminator. parse_i64, parse_f32, parse_string, parse_enum, skip_whitespace and enum_name return the number, word or case at the start of the text and the text behind it, and nothing where there is none.",
     ["inputs"], "every path of measuring, writing, scanning and parsing, for containers, format strings and texts of any length and content",
     "Empty and one-element containers, adjacent percent signs, absent values and trailing blanks each take another branch; tests print a few fixed values.",
     ["rpp/format.h", "rpp/format1.h"],
     [("measuring and writing each kind of value", "rpp/format.h"), ("container formatting", "rpp/vec.h"), ("map formatting", "rpp/map.h"), ("format strings", "rpp/format.h"), ("parsing", "rpp/format1.h")],
     AI + "; ghost counts of elements, characters and arguments related to the loops' variables", "proof",
     "What printf prints for one number and what strtoll/strtof accept is the C library's.")

prop("C27", "Every vector operation is its component formula and changes no operand",
     "For vectors of any component type and length, and for the four-lane SIMD type, arithmetic between vectors, with a scalar on either side, and in place, min, max, clamp, abs, floor, ceil, negation, lerp, dot, cross, norms, normalisation, projection, "
     "extension, swizzles, construction, indexing and iteration yield in each component exactly the formula applied to the operands' components, in order. Operations that return a new value leave their operands as they were; the assigning ones change only the left operand and yield it. "
     "Equality holds exactly when all components are equal. The SIMD lanes are numbered as the arguments and agree with the plain vectors.",
     ["inputs"], "all component values, by case split on the signs the code or the formula compares; two to five components of f32, f64, i32 and u32",
     "Swapped operands, a mutated argument or one wrong component go unnoticed by tests whose values are symmetric or that check one component.",
     ["rpp/vmath.h", "rpp/impl/simd.cpp", "rpp/simd.h"], [("vectors", "rpp/vmath.h"), ("SIMD lanes", "rpp/impl/simd.cpp")],
     "value-flow analysis of compiler IR: results normalised to exact rational functions of the inputs and compared with the formula", "proof",
     "Arithmetic is taken as exact: rounding, overflow and NaN are not covered.")

prop("C28", "Random streams are deterministic, bounded, and shuffle into every order",
     "A draw from a stream depends on nothing but its state, moves the state by an invertible function and returns the new state; a stream made from or seeded with a number starts there. unit values lie in [0, 1) and come within one step of 1. "
     "range(min, max) lies in [min, max) for every integer and floating-point type and can be every integer in it; integer is the low bits of one draw; a coin flip of probability p is heads exactly when the unit draw is below p. "
     "Shuffling a vector permutes it by swaps inside it, reaches every order by exactly one sequence of drawn indices, and does nothing for vectors of zero or one element. The hash of an integer is an invertible function, so distinct integers never collide.",
     ["inputs"], "any state, any bounds of a non-empty interval; shuffles of up to six elements with every value of every drawn index",
     "A bound that is off by one, a negative remainder or a biased shuffle shows up once in billions of draws.",
     ["rpp/rng.h", "rpp/hash.h"], [("streams", "rpp/rng.h"), ("integer hash", "rpp/hash.h")],
     "interval and remainder-relation analysis on the value flow of compiler IR", "proof",
     "Statistical quality of the generator is out of scope.")

prop("C29", "Matrix products, inverses, rotations and projections follow their formulas",
     "Arithmetic, transposition, products with matrices, vectors, points (w = 1, with translation) and directions (w = 0, without), and the inverse of a regular matrix equal the textbook formulas in every entry; columns are indexed and iterated in order. "
     "translate, scale, rotate(angle in degrees, axis), look_at, ortho and proj build the maps they name: rotations are counter-clockwise, look_at takes the viewpoint to the origin and the view direction to -z, ortho takes the box to the clip cube including both depth ends, proj gives w = -z and depth n / -z. "
     "rotate_y_to and rotate_z_to are orthonormal and take their axis to the given direction, including when it is parallel to the pole.",
     ["inputs"], "all values of all entries and parameters, with every special case the code tests for",
     "One wrong entry of an inverse or projection, or a transposed product, is invisible for the identity, diagonal and symmetric matrices tests use.",
     ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("matrix operations", "rpp/vmath.h"), ("constructions", "rpp/impl/vmath.cpp")],
     "value-flow analysis of compiler IR: entries normalised to exact rational functions (roots, sine and cosine as terms) and compared", "proof",
     "Arithmetic is taken as exact. rotate_y_to towards -y is a reflection and only its orthonormality is claimed.")

prop("C30", "Quaternions follow Hamilton's algebra and rotate as their matrices do",
     "Products are Hamilton's; conjugate, norm, unit, sums, scaling, negation, equality and component access are what they say. For a unit quaternion rotate(v) is q v q*, to_mat is the matrix of that rotation, and the inverse undoes it. "
     "axis_angle turns by the given degrees about the normalised axis; euler(a, b, c) is the turn about x by a, then y by b, then z by c, for all angles including the special-cased ones.",
     ["inputs"], "all components and angles; unit quaternions modulo the equation of the unit sphere",
     "Sign conventions and factor orders cancel out in tests that rotate about one axis.",
     ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("quaternions", "rpp/vmath.h"), ("Euler angles", "rpp/impl/vmath.cpp")],
     "value-flow analysis of compiler IR: components normalised modulo the unit-sphere equation and compared", "proof",
     "Arithmetic is taken as exact.")

prop("C31", "Bounding boxes enclose exactly what they were given; scalar helpers are exact",
     "A fresh or reset box is empty and has no surface; enclosing a point or box yields the smallest box around both; the centre, surface and emptiness follow from the corners; transforming a box by an affine matrix yields the box of its eight transformed corners, and projecting it the range its eight projected corners span, or the whole picture or nothing when some or all of them lie behind. "
     "min, max (also of lists), clamp, lerp, abs, sign, smoothstep, degree conversion and hypot equal their definitions; the library functions are called with the argument order their names promise, in both precisions.",
     ["inputs"], "all component values, by case split on the comparisons",
     "Which corner is extreme depends on the signs of nine matrix entries; tests sample a few.",
     ["rpp/vmath.h", "rpp/impl/vmath.cpp", "rpp/math.h", "rpp/impl/math.cpp"], [("boxes", "rpp/vmath.h"), ("scalar helpers", "rpp/math.h"), ("library functions", "rpp/impl/math.cpp")],
     "value-flow analysis of compiler IR with case split on sign conditions (Fourier-Motzkin)", "proof",
     "Arithmetic is taken as exact; integer helpers are C32.")
