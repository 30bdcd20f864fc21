#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for wording)."""
import json, os
I = "include/NazaraUtils/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": I + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

SF = ["schedules", "fault_sequences", "histories"]
p("S01", "A signal emission reaches every connected callback exactly once",
  "One emission of a signal calls every callback that stays connected from its start to its end exactly once and with the emitted arguments, calls a callback connected while it runs at most once, and never calls a callback after it was disconnected. This holds whatever the callbacks do to the signal while it is emitting: connecting, disconnecting themselves or others, clearing it, emitting it or another signal again. An emission cut short by a throwing callback calls nobody twice, and the next emission again reaches everybody.",
  SF, "every history of connects, disconnects, clears and emissions by several parties, every nesting of those inside callbacks, and every callback that throws",
  "SignalTests.cpp has one scenario with three callbacks that never touch the signal while it emits; re-entrant schedules and throwing callbacks are never run.",
  ["Signal.hpp", "Signal.inl", "FixedVector.inl"],
  [("emission loop over the slot list", "Signal.inl operator()"), ("slot removal that keeps visited and unvisited slots apart", "Signal.inl Disconnect")],
  [("slot list and emission position", "which slots the running emission already served", "Signal.hpp")],
  ["Signal::operator()", "the connected callbacks"])
p("S02", "Connection handles tell the truth and only affect their own callback",
  "A connection reports connected exactly while its callback is attached to a living signal, through every copy and move of the handle, and disconnecting it (directly, or by destroying or re-assigning a connection guard) detaches its own callback only, is idempotent, and is safe after the signal was cleared or destroyed. Moving a signal carries its callbacks and their connections over to the new signal and drops the ones the target had; copying a signal carries none over. No other callback of any signal is lost, duplicated or redirected by any of these.",
  SF, "every history of handle copies, moves, guard assignments, disconnects, clears, signal moves and signal destructions, also from inside callbacks and from destructors of state they captured",
  "The tests disconnect one connection once; they never move or destroy a signal, never copy or move handles, never use a connection guard.",
  ["Signal.hpp", "Signal.inl", "FixedVector.inl"],
  [("weak slot reference held by handles", "Signal.hpp Connection"), ("slot index bookkeeping", "Signal.inl Disconnect"), ("slot re-homing", "Signal.inl operator=(Signal&&)")],
  [("slot back reference and index", "which signal owns the slot and where", "Signal.hpp Slot")],
  ["Connection::IsConnected", "Connection::Disconnect", "ConnectionGuard"])
p("S03", "Signals survive failing callbacks and allocations and release callbacks once",
  "If connecting fails because memory runs out or a callback cannot be copied, the signal and all its existing connections are unchanged (a connection guard that was to take the new connection may already have released its own); if a callback throws, the exception reaches the emitter and the signal stays fully usable. The state captured by a callback stays alive while that callback runs, even if it is disconnected meanwhile, and is destroyed exactly once, no later than when the callback is detached (or returns from its last running call) or its signal dies.",
  ["fault_sequences", "schedules"], "every position of an allocation failure or exception in every history of signal operations, including inside nested emissions",
  "No test injects an allocation failure or throws from a callback, and none counts the lifetime of captured state.",
  ["Signal.hpp", "Signal.inl", "FixedVector.inl"],
  [("shared ownership of slots", "Signal.inl Connect"), ("growth of the inline slot list to the heap", "FixedVector.inl MoveStorageToFallback")], (),
  ["Signal::Connect", "destruction of the callback object"])
p("V01", "FixedVector and HybridVector behave like a sequence under any history",
  "After any history of operations a fixed or hybrid vector holds exactly the element sequence that std::vector would hold, through size, indexing, front/back, data and forward and reverse iteration, whether the elements live inline or in the fallback storage, and across the switch between the two. This covers copies, moves and assignments between vectors in any storage state, arguments that refer to the vector's own elements, and self-assignment; an rvalue handed in is moved, not copied. The storage is aligned for the element type. Elements added within the current capacity - which reserve(n) raises to at least n, doing nothing if it already is - do not move the storage. If appending at the end fails, the sequence is unchanged.",
  ["histories", "fault_sequences", "configurations"], "every history of operations on several vectors exchanging contents, every capacity, every storage state, with and without failing element operations or allocations",
  "FixedVectorTest.cpp runs one fixed script per type; the inline-to-fallback switch is met at one point and assignments between different storage states, aliasing arguments and failures are not.",
  ["FixedVector.hpp", "FixedVector.inl"],
  [("inline storage and fallback switch", "FixedVector.inl CheckFallbackOnGrow/MoveStorageToFallback"), ("element shifting", "FixedVector.inl emplace/erase"), ("assignment between storage states", "FixedVector.inl operator=")],
  [("size or fallback marker", "how many inline elements are alive, or that the fallback is in use", "FixedVector.hpp")],
  ["public container interface"])
p("V02", "FixedVector and HybridVector create and destroy each element exactly once",
  "Every element a fixed or hybrid vector constructs is destroyed exactly once and no element is used before construction or after destruction, whatever history of operations is run, including copies, moves and assignments between vectors in different storage states. When an element's constructor, copy, move or assignment throws, or the fallback allocation fails, the exception reaches the caller and the vector stays valid: its size counts exactly its living elements, nothing leaks and it can be used and destroyed normally.",
  ["fault_sequences", "histories"], "every position at which an element operation or an allocation fails within every history",
  "AliveCounter tests count constructions on one straight-line script; no element operation or allocation ever fails in the tests.",
  ["FixedVector.hpp", "FixedVector.inl", "MemoryHelper.inl"],
  [("placement construction and destruction", "MemoryHelper.inl"), ("size updates around construction", "FixedVector.inl emplace_back/resize"), ("ownership transfer", "FixedVector.inl operator=(FixedVector&&)")], (),
  ["element constructors and destructors"])
p("K01", "StackVector is a correct bounded sequence and owns its elements exactly once",
  "After any history of operations a stack vector holds exactly the sequence that std::vector would hold, within its capacity, including through moves between stack vectors, insertions of its own elements and iteration in both directions; adding elements never moves the storage, and an rvalue handed in is moved, not copied. Every element is destroyed exactly once, also when an element operation throws, after which the vector remains valid with size equal to its living elements; a moved-from vector has no elements and no room left, and is harmless to destroy or query.",
  ["histories", "fault_sequences"], "every history of operations and moves over several stack vectors, and every position of a throwing element operation",
  "StackVectorTest.cpp runs one script without throwing elements and never moves a non-empty vector.",
  ["StackVector.hpp", "StackVector.inl", "MemoryHelper.inl"],
  [("element shifting and size updates", "StackVector.inl"), ("move operations", "StackVector.hpp")], (), ["public container interface", "element lifetime"])
p("K02", "StackArray constructs and destroys exactly its elements",
  "A stack array of n elements default-constructs exactly n elements and destroys each exactly once, a moved array hands its elements over exactly once, and a no-init array destroys what its user built. If a constructor throws while the array is being built, the elements already built are destroyed; reads, fill and both iteration directions see exactly the stored elements. The memory which the macros take from the stack for arrays and vectors is aligned for the element type and shared by nobody else in the frame.",
  ["histories", "fault_sequences"], "every size, every history of writes, fills and moves, and every element whose construction or assignment throws",
  "No test of StackArray exists in the suite beyond use through StackVector; throwing constructors and moves are never exercised.",
  ["StackArray.hpp", "StackArray.inl", "MemoryHelper.inl"],
  [("constructor and destructor loops", "StackArray.inl"), ("move operations", "StackArray.hpp")], (), ["element lifetime", "public interface"])
p("M01", "Pool entries keep a unique, stable address and index while allocated",
  "While an entry of a memory pool is allocated, its index and its address belong to it alone, never change whatever else is allocated or freed or whether the pool is moved, and map to each other in both directions; a pointer that is not from the pool maps to the invalid index. A new entry is built from the arguments as they were given: rvalues may be moved from, lvalues are left alone. Storage honours the requested alignment, never overlaps another live entry, and the data in it is not altered by operations on other entries.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of allocations and frees by several clients, for every block size, with failing constructors and failing block allocations in between",
  "MemoryPoolTest.cpp allocates a handful of entries in one order and frees them in one order.",
  ["MemoryPool.hpp", "MemoryPool.inl", "Bitset.inl"],
  [("free-slot search", "MemoryPool.inl Allocate"), ("index/pointer conversions", "MemoryPool.inl RetrieveFromIndex/RetrieveEntryIndex")],
  [("per-block occupancy bitsets", "which slots are live", "MemoryPool.hpp Block")], ["Allocate", "RetrieveFromIndex", "RetrieveEntryIndex"])
p("M02", "Pool counts, iteration and reuse match the set of live entries",
  "The pool's allocated and free counts, its size and its iteration always agree with the set of entries allocated and not yet freed: each live entry is visited exactly once, in index order and with the right index, and free plus allocated equals blocks times block size. A new block is added only when no slot is free; resetting the pool makes its full capacity available again without releasing memory, and clearing it releases the blocks and leaves an empty, usable pool.",
  ["histories", "fault_sequences"], "every history of allocate, free, reset, clear and move by several clients, with failures in between",
  "The tests check counts along one script and never reuse a pool after a reset or clear.",
  ["MemoryPool.hpp", "MemoryPool.inl", "Bitset.inl"],
  [("occupancy counters and bitsets", "MemoryPool.inl Allocate/Free/Reset"), ("iteration over occupied entries", "MemoryPool.inl GetNextAllocatedEntry")],
  [("occupied entry count", "live entries of a block", "MemoryPool.hpp Block")], ["GetAllocatedEntryCount", "GetFreeEntryCount", "begin/end"])
p("M03", "Pool entries are destroyed exactly once and failed allocations give slots back",
  "Every object built in a pool is destroyed exactly once, by its free, by reset or clear, or when the pool is destroyed or assigned over; entries freed without destruction are not destroyed again. If the object's constructor throws or a block cannot be allocated, the exception reaches the caller, no slot is consumed, no half-built entry becomes visible or is later destroyed, and the pool keeps working.",
  ["fault_sequences", "histories"], "every position of a throwing constructor or failing allocation in every history, and pool moves, resets and destructions at any point",
  "No test makes a constructor throw or an allocation fail, and none moves a pool with live entries.",
  ["MemoryPool.hpp", "MemoryPool.inl", "MemoryHelper.inl"],
  [("construction after slot reservation", "MemoryPool.inl Allocate"), ("block creation", "MemoryPool.inl AllocateBlock"), ("destruction of live entries", "MemoryPool.inl Reset")], (), ["object constructors and destructors", "Allocate"])
p("B01", "A bitset equals its bit sequence under any history of operations",
  "After any history of operations a bitset reads, counts, searches, compares, converts and iterates exactly as the sequence of bits those operations define, for every block type and storage container and for every size relation between operands. Bits outside its size never influence any result, now or after it later grows.",
  ["histories", "configurations"], "every history of mutators over several bitsets used as each other's operands, for 8, 16, 32 and 64 bit blocks and for growing, fixed and hybrid containers",
  "BitsetTests.cpp checks chosen operands on fresh bitsets; states reached by long mixed histories, and comparison of different sizes, are not covered.",
  ["Bitset.hpp", "Bitset.inl", "FixedVector.inl"],
  [("masking of unused bits in the last block", "Bitset.inl ResetExtraBits"), ("block-wise operators", "Bitset.inl PerformsAND/OR/XOR/NOT"), ("search", "Bitset.inl FindFirst/FindNext")],
  [("block container and bit count", "stored bits", "Bitset.hpp")], ["Test", "Count", "FindNext", "comparison operators", "ToString"])
p("B02", "Bits appended or written in pieces equal the same bits written at once",
  "Feeding a bitset from a bit stream gives the same bitset whatever way the stream is cut into appends and writes, including empty pieces, pieces that start or end inside a byte or a block, and sources with set bits beyond the announced length. The read position a write returns continues the stream exactly after the consumed bits.",
  ["inputs", "fault_sequences"], "every fragmentation (short and empty deliveries) of every bit stream, from every starting offset, for every block type",
  "The tests write a few byte-aligned and hand-picked split sequences.",
  ["Bitset.hpp", "Bitset.inl"],
  [("append across block boundaries", "Bitset.inl AppendBits"), ("byte stream cursor", "Bitset.inl Write")], (), ["AppendBits", "Write", "FromPointer"])
p("B03", "Bitsets stay consistent when memory runs out and after being moved from",
  "If growing or copying a bitset fails because memory runs out, the exception reaches the caller and every bitset involved still has a size that matches readable bits, with all bits before the failed operation's range intact where the operation only grows it. Moving or swapping bitsets transfers the exact bits, and a moved-from bitset can be queried, assigned, cleared, resized and reused safely.",
  ["fault_sequences", "histories"], "every position of an allocation failure, and every reuse of moved-from bitsets, within every history",
  "No test fails an allocation or reuses a moved-from bitset.",
  ["Bitset.hpp", "Bitset.inl", "FixedVector.inl"],
  [("size update relative to container growth", "Bitset.inl Resize/AppendBits"), ("defaulted moves", "Bitset.hpp")], (), ["GetSize", "Test", "Resize"])
p("R01", "A result always holds exactly one of its value or its error, unaltered",
  "A result always holds exactly one of a value or an error, the one last stored in it, through copies, moves, conversions between result types and assignments in any state, and its accessors return that one and throw for the other. Nothing is taken from an lvalue handed in or from a result that was only read. Values and errors are destroyed exactly once, and if storing one throws, the exception reaches the caller and no stored object is leaked or destroyed twice; only a result whose payload's own move threw in the middle of an assignment may be left holding neither, which it then reports.",
  ["histories", "fault_sequences"], "every history of constructions, conversions, assignments and accesses between results, with any payload operation throwing",
  "ResultTests.cpp constructs and reads single results; conversions after assignment, throwing payloads and lvalue sources are barely touched.",
  ["Result.hpp", "Result.inl"],
  [("value/error storage", "Result.hpp"), ("value and error wrappers", "Result.inl Ok/Err"), ("access checks", "Result.inl EnsureValue/EnsureError")], (), ["IsOk/IsErr", "GetValue/GetError", "payload lifetime"])
p("R02", "Result chaining runs the right branch exactly once and propagates failures",
  "Mapping a result calls the functor exactly once when it holds a value, as the lvalue or rvalue it was given as, with that value, and never when it holds an error, which is then carried over unchanged; the fallback of a value-or access is used only for errors (and then moved if it is an rvalue), and the try macros return early exactly on errors and with that error. Any exception from the functor or from a payload reaches the caller, and an lvalue result is left unchanged.",
  ["histories", "fault_sequences", "schedules"], "every chain of maps and early returns over value, void and error results, with functors that throw or re-enter",
  "The tests map a few results with functors that never throw and never count calls.",
  ["Result.hpp", "Result.inl"],
  [("functor invocation", "Result.inl Map"), ("early return macros", "Result.hpp NAZARA_TRY/NAZARA_TRY_VALUE")], (), ["Map", "GetValueOr", "NAZARA_TRY"])
p("C01", "An exit action runs exactly once unless it was called or reset before",
  "An exit action runs exactly once when its scope is left, by normal flow, early return or exception, and not at all if it was reset before; once it has been started by an explicit call it never runs again, even if that call threw. When exit actions are assigned to one another, no action runs twice and a moved-from one runs nothing. The action itself, which may be a type that can only be moved, is destroyed exactly once.",
  ["crash_points", "schedules", "fault_sequences"], "every exit path of every nesting of scopes, every order of call, reset and assignment, and actions that throw or touch their own guard",
  "CallOnExitTests.cpp leaves one scope normally with an action that never throws.",
  ["CallOnExit.hpp", "CallOnExit.inl"],
  [("optional functor called in the destructor", "CallOnExit.inl"), ("explicit call", "CallOnExit.inl CallAndReset")], (), ["number of calls of the action"])
p("P01", "A private implementation object is owned by exactly one holder",
  "The hidden object of each holder is a separate object that is created and destroyed exactly once: a copy is independent and equal, a move transfers the content, and re-assigning, emplacing after a reset, or self-assigning leaves each holder with exactly the object the assignment describes. The object is built from the arguments as they were given: rvalues may be moved from, lvalues are left alone. If the object's constructor, copy or assignment throws or memory runs out, the exception reaches the caller, nothing leaks, nothing is destroyed twice and every holder can still be destroyed safely.",
  ["histories", "fault_sequences"], "every history of constructions, copies, moves, assignments, resets and emplaces over several holders, inline and on the heap, with any object operation or allocation failing",
  "PrivateImplTests.cpp runs one script for each storage kind without failures, self-assignment or empty holders.",
  ["PrivateImpl.hpp", "PrivateImpl.inl", "MovablePtr.inl", "MemoryHelper.inl"],
  [("in-place object replacement", "PrivateImpl.inl operator="), ("heap ownership through a movable pointer", "PrivateImpl.inl")], (), ["object lifetime", "Get/HasValue"])
p("F01", "A function reference calls exactly its current target, once, and transparently",
  "Calling a function reference calls the object it was last bound to exactly once, with the given arguments neither lost, duplicated nor needlessly copied, and returns that object's result or lets its exception through. Copies refer to the same target, rebinding one never affects another, an empty reference tests false and a bound one true, and all of this also holds when targets rebind or call references while being called.",
  ["histories", "schedules", "fault_sequences"], "every history of binding, copying, rebinding and calling over several references, with re-entrant and throwing targets",
  "FunctionRefTests.cpp calls fixed references; re-entrancy, rebinding histories and throwing targets or arguments are not covered.",
  ["FunctionRef.hpp", "FunctionRef.inl"],
  [("type-erased trampoline", "FunctionRef.inl")], (), ["operator()", "operator bool"])
p("W01", "Movable wrappers transfer their content and never take from an lvalue",
  "A movable pointer, value or literal wrapper yields exactly what was last stored in it; copying or assigning from an lvalue leaves the source untouched, and an expiring value is moved, not copied. Moving it transfers the content: a moved-constructed-from pointer becomes null and a literal its default value, and for an owner built on them no content is ever held by two wrappers or lost. A wrapped object is destroyed exactly once, also when its copy or assignment throws.",
  ["histories", "fault_sequences"], "every history of copies, moves, stores and assignments over several wrappers, with throwing wrapped objects",
  "MovableValueTests.cpp performs single moves and assignments.",
  ["MovablePtr.hpp", "MovablePtr.inl", "MovableValue.hpp", "MovableValue.inl"],
  [("move operations that reset or exchange the source", "MovablePtr.inl, MovableValue.inl")], (), ["Get", "conversion operators"])

p("Z01", "Sparse pointers walk strided elements like array pointers, under any history",
  "After any history of constructions, copies, resets and moves by any offset of any integer type, a sparse pointer refers to exactly the element that lies that many strides from where it started, for positive and negative strides and buffers of any size, and indexing, dereferencing, stores, conversion to const and conversion to a pointer to a base class reach that very element and no other. Distances count strides and ordering follows addresses. Standard algorithms, reverse and move iterators over sparse pointers give what they give on an array and touch nothing outside their range, also when an element operation throws.",
  ["histories", "fault_sequences", "configurations"], "every history of cursor operations by several clients over shared strided buffers, every stride, offset and offset type, and every element operation that throws inside an algorithm",
  "SparsePtrTests.cpp moves one pointer over a small int array with two strides; it runs no standard algorithm that writes, no base conversion, no large or unsigned offset, and nothing throws.",
  ["SparsePtr.hpp", "SparsePtr.inl"],
  [("byte-stride arithmetic", "SparsePtr.inl operator+/-/[]"), ("iterator traits for standard algorithms", "SparsePtr.hpp iterator_traits")],
  [("pointer and stride", "position of the cursor", "SparsePtr.hpp")], ["operators", "standard algorithms over sparse pointers"])
p("E01", "Enumeration arrays store and visit each enumerator's value exactly once",
  "After any history of stores, fills, swaps, copies, moves and assignments by several parties, an enumeration array gives for each enumerator exactly the value last stored for it. Plain and key-value iteration, from const and non-const arrays, visit every enumerator exactly once in order, each with its own value; key-value iterators can be moved forwards and backwards by any offset, subtracted, compared, written through and handed to standard algorithms, and stay at their enumerator whatever happens to the values. When an element operation or a visitor throws, the exception reaches the caller, every value is an old or a new one, and every element is destroyed exactly once.",
  ["histories", "fault_sequences", "configurations"], "every history of array and iterator operations by several clients over shared arrays, for enumerations of every underlying type, with any element operation throwing",
  "EnumArrayTests.cpp fills one array and reads it; key-value iterators are only incremented, and nothing throws.",
  ["EnumArray.hpp", "EnumArray.inl"],
  [("enumerator to index mapping", "EnumArray.inl operator[]"), ("key-value iterators", "EnumArray.inl EnumArrayKeyValueIterator")], (), ["operator[]", "begin/end", "iter_kv"])
p("Y01", "Flag sets hold exactly the enumerators that were set, in every history",
  "After any history of Set, Clear, complements, unions, intersections, exclusive ors, compound assignments, copies and conversions by several parties on shared flag sets - with enumerators and sets on either side, also with a set as its own argument - each set holds exactly the enumerators which these operations imply and no other bit: Test, Count, the conversion to bool, equality and the integer representation agree, the integer converts back to an equal set, and the complement holds exactly the other enumerators, for enumerations of 1 to 64 enumerators with automatic bits. Iteration, also by the algorithms of the standard library, gives every flag the set held when the iteration began exactly once in increasing order, whatever a visitor does to the set meanwhile and also up to the point where the visitor throws. Equal sets have equal hashes and find the same entry of an unordered container, also after insertions that ran out of memory.",
  ["histories", "schedules", "configurations", "fault_sequences"], "every history of flag set operations by several clients over shared sets and iterators, for every number of enumerators and underlying type, with visitors that change the set or throw and with any allocation failing",
  "FlagTests.cpp sets, clears and iterates three flags; no enumeration needs more than eight bits, nothing changes a set while it is iterated, hashes are never taken.",
  ["Flags.hpp", "Flags.inl"],
  [("bit of an enumerator", "Flags.inl GetFlagValue"), ("mask of complements", "Flags.hpp ValueMask"), ("remaining flags of an iterator", "Flags.inl iterator::operator++")],
  [("bit field", "one bit per enumerator", "Flags.hpp m_value")], ["Test", "Count", "conversion to integers", "iteration", "std::hash"])
p("U01", "Helpers run user code once per item and survive its failures unchanged",
  "Applying a functor template to a type list runs a fresh functor once for each entry of the list, in list order, with the caller's own arguments as they were given (an expiring one stays expiring). Combining hashes hashes every value once, every value and the seed influence the result, and equal inputs give equal results; a text hashes alike in whatever form it is passed, so containers find it by any of them. Conversions between text, UTF-8 text and paths keep every byte, views refer to their source, looking up a map entry gives the entry itself, and casting an owning pointer hands over the same object exactly once. If user code throws or memory runs out, the exception reaches the caller at once, no further user code runs, the seed and all inputs are unchanged and nothing leaks.",
  ["fault_sequences", "histories", "schedules"], "every history of helper calls over shared texts, maps, paths and owned objects, with user functors and hashes that throw or call the helpers again, and with any allocation failing",
  "The tests call each helper once with functors that neither throw nor re-enter; no allocation fails.",
  ["TypeList.hpp", "TypeList.inl", "Hash.hpp", "Hash.inl", "StringHash.hpp", "StringHash.inl", "StringUtils.inl", "PathUtils.inl", "Algorithm.hpp", "Algorithm.inl"],
  [("recursion over the type list", "TypeList.inl ListApply"), ("hash combination", "Hash.inl HashCombine"), ("ownership cast", "Algorithm.inl StaticUniquePointerCast"), ("text conversions", "StringUtils.inl, PathUtils.inl")], (), ["TypeListApply", "HashCombine", "Retrieve", "StaticUniquePointerCast", "StringHash", "PathToString/Utf8Path"])

p("D01", "Checked builds stop at the call that breaks a contract, and only there",
  "After any history of calls, a call outside the contract which its function asserts - an index, iterator, count or capacity out of range, an operation on an empty or occupied holder, an entry that is not allocated, iterators of different owners, a missing key, an empty callback, a stride, bit or alignment out of range, a cast which does not preserve the value or to a class the object does not have - ends the process at that call in a build with assertions, with a report on the error stream, whether it is made directly, in a signal callback, in a scope guard or while an exception passes, and whatever the program did to its error stream and to the trap and abort signals. The explicitly called assertion functions do so in every build. A call inside its contract never stops and has its effect, also at the borders of the contract. The condition of an assertion is evaluated once with assertions and never without, and an assertion is one statement, which does not change the control flow around it.",
  ["histories", "fault_sequences", "schedules", "configurations"], "every history of legal calls over shared containers before the call, from every context, under every state of the error stream and signal dispositions, in builds with and without assertions",
  "A failed assertion ends the test program, so no test makes one fail ('Catch2 offers no way to catch an assertion failure', AlgorithmTests.cpp).",
  ["Assert.hpp", "Assert.inl", "DebugBreak.hpp", "Algorithm.inl", "Bitset.inl", "FixedVector.inl", "StackVector.inl", "StackArray.inl", "MemoryPool.inl", "PrivateImpl.inl", "EnumArray.inl", "Flags.inl", "Signal.inl", "SparsePtr.inl", "MathUtils.inl"],
  [("assertion macros", "Assert.hpp NazaraAssert"), ("stopping", "Assert.inl AssertFailureWithSource"), ("cast checks", "Algorithm.inl SafeCast")], (), ["end of the process", "error stream", "values and sizes after legal calls"])
p("G01", "Objects built from several components stay consistent with each other",
  "Take entities that live in a memory pool and own signals, connection guards held in hybrid vectors, bitset masks and private implementations. Through any history of spawning, watching, unwatching, handing over listeners, emitting, killing, querying and moving the pool or a signal - also from inside callbacks, and with any allocation or user code failing - the pool, the registry vector and the living mask list exactly the same entities under stable indices and addresses, every listener that lives through an event of its source hears it exactly once, nobody hears anything after it or its guard is gone, guards tell truthfully whether their source still lives, state captured by a listener lives exactly as long as it is connected or running, a multi-step spawn that fails is undone completely, and in the end every object was destroyed exactly once and all memory is returned.",
  ["histories", "schedules", "fault_sequences"], "every history of world operations by several clients, re-entrant from every callback, with faults at any allocation and any user operation",
  "Each test file uses one component at a time; no test destroys a pool entry whose guards are connected, nor during an emission.",
  ["MemoryPool.inl", "Signal.inl", "FixedVector.inl", "Bitset.inl", "PrivateImpl.inl", "EnumArray.inl", "CallOnExit.inl", "FunctionRef.inl", "Result.inl", "StackVector.inl", "MovablePtr.inl"],
  [("entities destroyed while their listeners run", "Signal.inl operator(), Disconnect; MemoryPool.inl Free"), ("guards moved by vector growth and erasure", "FixedVector.inl erase, emplace_back; Signal.inl ConnectionGuard"), ("undo actions of failed spawns", "CallOnExit.inl")],
  [("entity", "index, address, mask and listeners", "MemoryPool, Bitset, HybridVector, Signal")], ["pool iteration and counts", "registry", "living mask", "callbacks received", "IsConnected"])

# Properties this technique cannot decide here (pure functions of their inputs)
p("H01", "Hash functions give the standard CRC-32 and FNV-1a values",
  "CRC32, FNV1a32 and FNV1a64 return the published algorithm's value for every byte string, identically through every overload and at compile time and run time.",
  ["inputs"], "every byte string and every overload", "Tests check a few strings.", ["Hash.hpp", "Hash.inl", "StringHash.inl"],
  [("table and multiply loops", "Hash.inl")], (), ["return values"])
p("X01", "Math and bit helpers are exact over their whole domain",
  "The integer helpers (bit counting and searching, powers of two, alignment, integer logarithms, clamps, modulo, saturating casts) return the mathematically exact value for every argument of every supported width, and the floating-point helpers stay within their documented tolerance.",
  ["inputs"], "every argument of every type", "Tests sample points.", ["MathUtils.hpp", "MathUtils.inl"],
  [("arithmetic helpers", "MathUtils.inl")], (), ["return values"])
p("A01", "Casts and byte order helpers are value-exact",
  "Bit casts and byte swaps round-trip every value, and safe casts accept exactly the representable values.",
  ["inputs"], "every value", "Tests sample values.", ["Algorithm.hpp", "Algorithm.inl", "Endianness.hpp", "Endianness.inl"],
  [("conversion helpers", "Algorithm.inl, Endianness.inl")], (), ["return values"])
p("T01", "Type-level utilities compute the documented types and names",
  "Type lists, type traits, function traits and type names yield the documented result for every well-formed instantiation.",
  ["programs"], "every instantiation", "Tests instantiate a few.", ["TypeList.hpp", "TypeList.inl", "TypeTraits.hpp", "FunctionTraits.hpp", "TypeName.hpp", "TypeName.inl"],
  [("compile-time recursion", "TypeList.inl, FunctionTraits.hpp")], (), ["resulting types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
