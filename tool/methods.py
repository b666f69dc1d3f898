"""how each property is decided (text for DESIGN.md)"""
M = {}
M["C01"] = """*Specified:* for every operation of `Vec` a contract over (length, capacity, contents): the resulting buffer must map positions to the same origin elements the mathematical sequence has, every origin constructed and destroyed once, storage returned once, every access in bounds, out-of-range access ends in the assertion handler.
*Analysed:* every path of every operation for three element classes and the allocator traits, from an arbitrary state satisfying `0 <= length <= capacity`. *Bounds:* none (lengths symbolic); assumes sizes do not wrap and arguments do not alias elements. *Cost:* about 10 s. Tests push a handful of integers."""
M["C02"] = """As C01 with the ring: contents are two ranges, the invariant `last < capacity`, and the physical position of element *i* is `(first+i) mod capacity`; wrapped and contiguous shapes are separate abstract states. Power-of-two capacity is part of the invariant and itself checked on growth. Removal of the first equal element moves one element per turn round the ring; it is decided by evaluating its IR over every ring of up to five slots, every position and length and every position of the first match (`lib/elems.py`), with the element typestate and the order compared after each.  That part is bounded."""
M["C03"] = """Typestate of the inline storage against the engaged flag; every (engaged, empty) combination of source and target of every operation."""
M["C04"] = """Typestate of the owned block (allocated, constructed, destroyed, freed), null and owning combinations; dereferencing null must end in the assertion handler."""
M["C05"] = """The count of a block is tied to a ghost number of handles; every operation must change both alike. For `Arc` every load of the count after a decrement is arbitrary (other holders run in between), a block that was given up becomes *foreign* and any later access is a use after release."""
M["C06"] = """The index and the storage typestate for variants of 1, 3, 8 and 9 alternatives (the branching and the table forms): all alternatives and all pairs. Table entries are resolved through the constant table in the IR."""
M["C07"] = """Operation table resolution + capture lifetime typestate, closures with different captures, empty and full."""
M["C08"] = """Pair/Tuple/Array by storage typestate per element; Slice bounds with full 64-bit wrap-around arithmetic."""
M["C09"] = """As C01 with the top at the end."""
M["C12"] = """Byte buffers with quantified content facts ("all bytes before i equal") attached to scanning loops, so equality, ordering and separator search are decided for any length and content."""
M["C10"] = """Permutation part as C01. Order part: one sift step is executed abstractly over **all weak orders** of the elements it can compare (parent, children, moved element), and the heap invariant must be re-established everywhere but at the next slot; by induction the loop establishes it."""
M["C11"] = """One probe step against the robin-hood invariant with an arbitrary table: each slot's occupancy, hash and distance arbitrary subject to the invariant, the loop's ghost says what has been ruled out so far. Insertion, displacement, lookup, erase and gap closing are judged by the inductive step; growth by transferring all entries."""
M["C14"] = """Each operation of the class template (two size classes, allocation also with three; every public member) is followed on a heap that is materialised where the code looks: a pointer that is followed is null, a block seen before or another block, as far as the invariant allows; sizes, starts, request and alignment stay symbolic linear terms (modulo 2^64, wrap-around as its own branch), size classes are any monotone choice. Afterwards the invariant (tiling, both-way links, merging, classes, statistics) is checked for every block looked at or made, and the result against its contract. Accesses outside the lock are reported where they happen."""
M["C16"] = """All paths with all results of every futex/pthread call; memory orders read from the IR; retry loops judged on their exit condition."""
M["C17"] = """Thread entry analysed on the state its creator hands over; promise/future by typestate and event order."""
M["C21"] = """Descriptor typestate and ghost byte counts; every system call returns every documented result, including EINTR, short transfers and failure. Waiting for one of several events: the calls build a poll set of (descriptor, mask, label), and every outcome of every call is followed for one, two, three, five and 300 events with several masks and reported conditions (`lib/polls.py`), whatever label the code uses; the generic argument for any number of events is added when the loops have the shape it understands, and the evidence says which of the two was reached."""
M["C18"] = """Every operation on the shared frame state is an atomic step with the other side's state arbitrary among those reachable by the protocol; ownership of the frame is the typestate."""
M["C19"] = """Thread-modular: whatever the lock does not protect is arbitrary at every access; locksets on each access, lock order, no lost wake-up (the predicate is re-read under the lock between wake and wait), pairing of events with coroutines by ghost indices, destruction order."""
M["C13"] = """The chunk list is unfolded where the code follows it; the sum of used sizes over the list is a ghost whose change is related to the recorded offsets on every path and round the release loop (how much has been released so far). Returned memory must lie behind the chunk's used part and inside its size. Roles of the thread-local variables are found from what `depth()` and `size()` read. Free lists: the list is an arbitrary chain; each operation must take, keep or release exactly one node. Pools: lockset on the list, order of construction, destruction and link writes. Found two real alignment defects (fixed)."""
M["C22"] = """Elements and numbers are opaque pieces of opaque length. A ghost counts the elements done, the length of the rendering so far and the position written to; every loop's variables are related to these, so lengths, separators and positions are decided for containers of any size. For format strings and parsers, the ghost is a tokenizer run beside the code: each character the code reads at the ghost's position is classified (percent sign, escape, argument, other; blank or not) by splitting the path, and what is written next must be that token."""

M["C27"] = """Each operation is run over an exact algebra: components are symbols, results rational functions in normal form (integers modulo nothing, roots, floor, abs and so on as terms). A comparison on a symbolic value splits the analysis on its sign; a set of linear sign facts is kept consistent by Fourier-Motzkin elimination. In each branch every result component must equal the formula's normal form, and every operand what it was. Found two real defects (unary minus changing its operand, scalar - Vec4)."""
M["C28"] = """The generator's state is arbitrary; integers are polynomials with interval bounds and remainder relations (`x % n <= n - 1`). Invertibility is decided structurally: the new state must be a composition of steps that can be undone (odd multiple, constant, xor with a right shift of itself). Bounds of conversions to floating point are checked to be exact. A shuffle is evaluated with every value of every drawn index for each length up to six: the orders reached must be all, each once. Found three real defects."""
M["C29"] = """As C27, for all sixteen entries. Constructions involving a normalised axis are compared modulo `|u| = 1`, and special-cased inputs are separate branches with their equations added to the ideal. Found a real defect in `ortho`."""
M["C30"] = """As C27, modulo `x^2+y^2+z^2+w^2 = 1` and `sin^2+cos^2 = 1`; branches that fix an angle substitute the sine and cosine values. Found a real defect in `euler`."""
M["C31"] = """As C27 with min/max as case splits: in every sign branch the result must be the specified corner."""

M["C15"] = """One translation unit of static assertions and accepted programs and one of programs that must be rejected, each on a line of its own, type-checked against the headers. Every rejected program has a twin that differs only in the offending part and must be accepted, so that a witness cannot pass for an unrelated reason. Errors inside the headers are attributed to the line that instantiated them. Found that clone into another allocator and a Pool with one's own allocator did not compile (fixed)."""
M["C32"] = """Each integer helper is interpreted with one binary decision diagram per bit of every value, so the result is known for all 2^32 or 2^64 inputs at once; it is compared with the definition's diagrams, and overflow with the no-wrap flag, shifts past the width and reaching the end of a function are faults with a witness input. Scalar floating helpers are compared as exact formulas on every order of their arguments; pow for all exponents to 70 as polynomials plus the extreme bases at compile time, where signed overflow is an error. Found that pow overflowed while computing results that fit (fixed)."""
M["C26"] = """Each operation of the profiler is followed through the compiler IR on every start state up to the bound. Vectors, queues and maps are lists of elements in storage that moves whenever they grow, so a reference kept across growth is a fault; times, counts and sizes are exact symbolic terms; each lock is a member of the set of locks held, and every access to the thread list, accounts, finalizers or a listed thread's frames must find its lock there. The state afterwards is compared with the specified one field by field. Found that re-entering a scope restarted and counted its parent, that a thread ending inside a frame stopped the program, and that warnings and statistics were logged with the accounts locked (all fixed)."""
M["C20"] = """The library is compiled without optimisation or inlining, so every function is still a function. A forward dataflow gives the set of mutexes that may be held at each instruction (Lock objects and bare lock/unlock alike, through references); a mutex is named by its global or by the class and member it is. Summaries over the call graph give everything a call may acquire, which user code it may run and on what it may wait; a reported cycle lists both chains of calls. User code is a set of opaque functions called from a test type, from lambdas given to the library and from resumed coroutines, plus every call through a stored function. Exact for the order rule up to the merging of mutexes of one class. Found that finalizers ran under the finalizer lock (fixed), and that iterate_timings runs its visitor with two locks held (recorded as a known finding: pushing onto a default Vec from the visitor hangs; a repair has to copy whole frames)."""
M["C25"] = """The output function, the subscriber table, scopes and the assertion macros are followed through the compiler IR; printf, fflush, time and the callbacks are events whose order, arguments and lock state are compared with the contract, argument by argument against the conversions of the format string found in the constant. The table is a list of entries that move when it grows. Seeds written for it: a token used again, a callback that depends on the level, indentation on one output only, and an assertion reported once per place."""
M["C23"] = """The tables are constant expressions, so they are read straight from the compiled constants and compared with `-fdump-record-layouts` (names, offsets, kinds, coverage of every leaf member) and with the enumerators in the syntax tree. iterate_record and iterate_enum are followed call by call with the visitor left opaque: the sequence of (name, address, size) must be the table's. Some 7000 static_asserts, generated from what each type is, decide traits and list operations; the expectation is computed in Python or by compiler builtins, never by the library. Found that Record held for enumerations (fixed)."""
M["C24"] = """The value flow of each hash is followed over exact terms (multiplication, shifts and exclusive-or as operators). Two keys are laid out that compare equal but differ in everything else; the results must be the same term, and every byte must occur in it. Zero is excluded from hash_nonzero by the term's shape. Found that 0.0 and -0.0 hashed differently (fixed)."""
