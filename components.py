"""What each simulator runs, and which property each one decides."""
SAN = ("-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,return,unreachable,bool,enum,vla-bound")
PATTERN = "-ftrivial-auto-var-init=pattern"  # uninitialised variables have the same content in every repetition
BUILDS = {
    # assertions on, C++17, sanitizers: undefined behaviour is a violation
    "san17": {"cxx": ["g++", "-std=c++17", "-O1", "-g1", PATTERN, "-fno-omit-frame-pointer", "-DNAZARA_DEBUG", "-D_GLIBCXX_ASSERTIONS", SAN, "-fno-sanitize-recover=all"]},
    # as shipped: C++20, optimised, assertions off
    "rel20": {"cxx": ["g++", "-std=c++20", "-O2", PATTERN, "-DNDEBUG"]},
    # a user's debug build: assertions on and nothing else that could stop the process
    "chk20": {"cxx": ["g++", "-std=c++20", "-O2", PATTERN, "-DNAZARA_DEBUG"]},
}
BOTH = ["san17", "rel20"]


def runs(q_san, q_rel, factor=25):
    return {"quick": {"san17": q_san, "rel20": q_rel}, "thorough": {"san17": q_san * factor, "rel20": q_rel * factor}}


ALLOC_STUB = "global operator new/delete (fault-injecting allocator that counts and fills library allocations)"
ELEM_STUB = "user objects (tracked type whose constructors, copies, moves and assignments report to a lifetime ledger and can throw)"
ASSUME = ["Single-threaded use: the library has no threads, locks or atomics, so the only schedules are the order of calls and re-entrant callbacks.",
          "Destructors and operations declared noexcept by the user's type do not throw."]

COMPONENTS = {
    "pool": {
        "uses": [{"macro": "SIM_NO_POOL_MOVE_ONLY", "file": "pool_move_only.cpp", "property": "M01", "what": "building a pool entry from arguments that can only be moved does not compile"}],
        "builds": BOTH, "runs": runs(150000, 400000),
        "real": ["Nz::MemoryPool", "Nz::MemoryPoolIterator", "Nz::Bitset<UInt64>", "Nz::PlacementNew/PlacementDestroy"],
        "stubs": [ALLOC_STUB, ELEM_STUB],
        "state_measure": "hash over all pools of block size, block count and the set of live indices, after each operation",
        "assumptions": ASSUME + ["Entries reserved with deferred construction are constructed before the pool is reset, cleared or destroyed.",
                                 "A pool is not reset, cleared, moved or destroyed from inside a constructor or destructor of its own entries."],
    },
    "vector": {
        "builds": BOTH, "runs": runs(700000, 2500000),
        "real": ["Nz::FixedVector", "Nz::HybridVector", "Nz::PlacementNew/PlacementDestroy/PlacementMove", "std::vector as fallback storage"],
        "stubs": [ALLOC_STUB, ELEM_STUB],
        "state_measure": "hash over all vectors of storage state, size and elements, after each operation",
        "assumptions": ASSUME + ["Preconditions of the API are respected: indices and iterators in range, FixedVector not grown past its capacity."],
        "uses": [{"macro": "SIM_NO_VECTOR_MOVE_ONLY", "file": "vector_move_only.cpp", "property": "V01", "what": "building elements that can only be moved does not compile"}],
    },
    "stackvec": {
        "builds": BOTH, "runs": runs(1000000, 3000000),
        "real": ["Nz::StackVector", "Nz::MovablePtr", "Nz::PlacementNew/PlacementDestroy"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "stack memory (heap buffers of the requested size stand in for alloca; NazaraStackVector on the real stack is run by the stackarray simulator)"],
        "state_measure": "hash over all vectors of capacity, size and elements, after each operation",
        "assumptions": ASSUME + ["Capacity is never exceeded."],
        "uses": [{"macro": "SIM_NO_STACKVEC_MOVE_ONLY", "file": "stackvec_move_only.cpp", "property": "K01", "what": "building elements that can only be moved does not compile"}],
    },
    "stackarray": {
        "builds": BOTH, "runs": runs(900000, 3000000),
        "real": ["Nz::StackArray", "Nz::MovablePtr", "NazaraStackArray, NazaraStackArrayNoInit and NazaraStackVector macros (alloca)"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "stack memory of the arrays that move between clients (heap buffers; macro frames use the real stack)"],
        "state_measure": "hash over all arrays of size and elements, after each operation",
        "assumptions": ASSUME,
    },
    "bitset": {
        "uses": [{"macro": "SIM_NO_BIT_ITERATORS", "file": "bit_iterators.cpp", "property": "B01", "what": "the standard library does not accept bit iterators"}],
        "builds": BOTH, "runs": runs(300000, 1500000),
        "real": ["Nz::Bitset with std::vector, HybridVector and FixedVector storage and 8 to 64 bit blocks", "Nz::HybridVector", "Nz::FixedVector", "bit helpers of MathUtils"],
        "stubs": [ALLOC_STUB, "bit stream source (delivers its bytes in seeded fragments, empty and short ones included)"],
        "state_measure": "hash over all bitsets of size and bits, after each operation",
        "assumptions": ASSUME,
    },
    "signal": {
        "uses": [{"macro": "SIM_NO_GUARD_MOVE", "file": "guard_move.cpp", "property": "S02", "what": "moving a connection into a connection guard does not compile"}],
        "builds": BOTH, "runs": runs(220000, 900000),
        "real": ["Nz::Signal", "Nz::Signal::Connection", "Nz::Signal::ConnectionGuard", "NazaraSlot macro"],
        "stubs": [ALLOC_STUB, "user callbacks (run seeded scripts that connect, disconnect, emit and drop handles re-entrantly, and can throw)", ELEM_STUB],
        "state_measure": "hash over all signals and handles of connection states and slot order, after each operation",
        "assumptions": ASSUME + ["A signal is not moved, assigned to or destroyed while it is being emitted."],
    },
    "result": {
        "builds": BOTH, "runs": runs(700000, 2500000),
        "real": ["Nz::Result<V, E>", "Nz::Result<void, E>", "Nz::Ok", "Nz::Err", "chains of Map", "NAZARA_TRY and NAZARA_TRY_VALUE in real functions"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user continuations (seeded branch outcome, can throw)"],
        "state_measure": "hash over all results of held alternative and payload, after each operation",
        "assumptions": ASSUME,
    },
    "callonexit": {
        "uses": [{"macro": "SIM_NO_EXIT_MOVE_ONLY", "file": "exit_move_only.cpp", "property": "C01", "what": "an exit action that can only be moved does not compile"}],
        "builds": BOTH, "runs": runs(700000, 3000000),
        "real": ["Nz::CallOnExit", "NAZARA_DEFER macro on real scopes left by normal flow, return and exception"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user actions (run seeded scripts that use guards re-entrantly, and can throw)"],
        "state_measure": "hash over all guards of existence and pending action, and of the number of actions run, after each operation",
        "assumptions": ASSUME + ["An action that runs from a destructor does not throw.", "A guard is not assigned to while its action runs."],
    },
    "pimpl": {
        "uses": [{"macro": "SIM_NO_PIMPL_MOVE_ONLY", "file": "pimpl_move_only.cpp", "property": "P01", "what": "an implementation that can only be moved does not compile"}],
        "builds": BOTH, "runs": runs(1000000, 4000000),
        "real": ["Nz::PrivateImpl on the heap", "Nz::PrivateImpl in place", "Nz::MovablePtr", "Nz::PlacementNew/PlacementDestroy"],
        "stubs": [ALLOC_STUB, ELEM_STUB],
        "state_measure": "hash over all holders of empty, moved-from or filled, after each operation",
        "assumptions": ASSUME + ["Moves of the hidden object do not throw (PrivateImpl declares its own moves noexcept).", "Emplace is called on empty holders only."],
    },
    "funcref": {
        "uses": [{"macro": "SIM_NO_CONST_TARGET", "file": "const_target.cpp", "property": "F01", "what": "binding a function reference to a const object does not compile"},
                 {"macro": "SIM_NO_IGNORED_RESULT", "file": "ignored_result.cpp", "property": "F01", "what": "binding a function reference that returns nothing to a callable that returns something does not compile"}],
        "builds": BOTH, "runs": runs(400000, 2500000),
        "real": ["Nz::FunctionRef over functors, const functors, lambdas, std::function, plain functions, function pointers and reference wrappers"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user targets (run seeded scripts that rebind and call references re-entrantly, and can throw)"],
        "state_measure": "hash over all references of kind and call count of their target, after each operation",
        "assumptions": ASSUME + ["Targets outlive the calls made through references to them; empty references are not called."],
    },
    "movable": {
        "uses": [{"macro": "SIM_NO_WRAPPER_ASSIGN", "file": "wrapper_assign.cpp", "property": "W01", "what": "assigning a movable value from another one that is an lvalue does not compile"},
                 {"macro": "SIM_NO_WRAPPER_MOVE_ONLY", "file": "wrapper_move_only.cpp", "property": "W01", "what": "a movable value of a type that can only be moved does not compile"}],
        "builds": BOTH, "runs": runs(1000000, 4000000),
        "real": ["Nz::MovablePtr", "Nz::MovableLiteral", "Nz::MovableValue", "defaulted moves of classes made of them, in std::vector and std algorithms"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "handles of an outside system (registry that counts opens and closes)"],
        "state_measure": "hash over all wrappers of default, moved-from or filled, after each operation",
        "assumptions": ASSUME,
    },
    "sparse": {
        "builds": BOTH, "runs": runs(1200000, 6000000),
        "real": ["Nz::SparsePtr over positive, negative, zero and large strides, over elements, members of elements and second base classes", "std algorithms and std iterator adaptors over Nz::SparsePtr"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "buffers of strided elements shared by the clients, some with elements more than 2 GB apart (reserved, untouched address space)"],
        "state_measure": "hash over all cursors of buffer, position and stride, and over all buffers of their elements, after each operation",
        "assumptions": ASSUME + ["Cursors stay within their buffer or one step outside; distances are only taken between cursors of one buffer with the same non-zero stride."],
    },
    "enumarray": {
        "uses": [{"macro": "SIM_NO_KV_ITERATORS", "file": "kv_iterators.cpp", "property": "E01", "what": "the standard library does not accept key-value iterators"},
                 {"macro": "SIM_NO_ARRAY_MOVE_ONLY", "file": "array_move_only.cpp", "property": "E01", "what": "an array of values that can only be moved does not compile"}],
        "builds": BOTH, "runs": runs(700000, 2500000),
        "real": ["Nz::EnumArray over enumerations of several underlying types", "Nz::EnumArray key-value views and iterators", "Nz::EnumValueCount"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user visitors (write, throw half-way)"],
        "state_measure": "hash over all arrays of their values and over all iterators of array and position, after each operation",
        "assumptions": ASSUME + ["Iterators stay within their array; iterators of different arrays are not compared."],
    },
    "flags": {
        "uses": [{"macro": "SIM_NO_FLAGS_64", "file": "flags_64.cpp", "property": "Y01", "what": "the complement of a set over 64 enumerators does not compile"},
                 {"macro": "SIM_NO_FLAGS_HASH", "file": "flags_hash.cpp", "property": "Y01", "what": "unordered containers do not accept flag sets as keys"},
                 {"macro": "SIM_NO_FLAGS_ALGORITHMS", "file": "flags_algorithms.cpp", "property": "Y01", "what": "the standard library does not accept flag iterators"}],
        "builds": BOTH, "runs": runs(700000, 4000000),
        "real": ["Nz::Flags over enumerations of 1 to 64 enumerators with automatic bits and with bits of their own", "Nz::Flags iterators", "operators of Nz::FlagsOperators", "std::hash<Nz::Flags> in std::unordered_map"],
        "stubs": [ALLOC_STUB, "user visitors (change the set they walk, throw half-way)"],
        "state_measure": "hash over all sets of their bits and over all iterators of the flags left, after each operation",
        "assumptions": ASSUME + ["Sets built from integers only have bits of enumerators.", "Iterators are compared with iterators of the same set only."],
    },
    "contract": {
        "builds": ["chk20"] + BOTH,
        "runs": {"quick": {"chk20": 80000, "san17": 12000, "rel20": 100000}, "thorough": {"chk20": 2000000, "san17": 300000, "rel20": 2500000}},
        "real": ["NazaraAssert, NazaraAssertMsg, Nz::Assert and Nz::AssertWithSource down to the debug break, assert and abort", "the checks of Nz::Bitset, FixedVector, HybridVector, StackVector, StackArray, MemoryPool, PrivateImpl, Flags, EnumArray, Signal, SparsePtr, Retrieve, SafeCast, SafeCaster, StaticUniquePointerCast and the bit and alignment helpers", "the error stream, signals and the end of a real (forked) process"],
        "stubs": [ALLOC_STUB, "the user's error stream and signal handlers (closed, full, handled, blocked or ignored as the seed says)"],
        "state_measure": "hash over the sizes of all containers and the state of the implementation, after each operation",
        "assumptions": ASSUME + ["Calls outside a contract are only those which the code declares to assert; other misuse is not judged.", "POSIX signals."],
    },
    "helpers": {
        "builds": BOTH, "runs": runs(1200000, 5000000),
        "real": ["Nz::TypeListApply", "Nz::HashCombine", "Nz::Retrieve", "Nz::StaticUniquePointerCast", "Nz::StringHash in std::unordered_map", "Nz::ToUtf8String, Nz::FromUtf8String, Nz::Utf8Path, Nz::PathToString"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user functors and hashes (record their calls, call the helpers again, can throw)"],
        "state_measure": "hash over all texts, map contents and owned objects, after each operation",
        "assumptions": ASSUME + ["POSIX paths (bytes of UTF-8)."],
    },
    "system": {
        "builds": BOTH, "runs": runs(130000, 700000),
        "real": ["Nz::MemoryPool", "Nz::Signal, Connection and ConnectionGuard", "Nz::HybridVector", "Nz::Bitset", "Nz::PrivateImpl (heap and in place)", "Nz::EnumArray of signals", "Nz::MovablePtr", "Nz::CallOnExit", "Nz::FunctionRef", "Nz::Result with NAZARA_TRY_VALUE", "NazaraStackVector", "all of them composed into one world"],
        "stubs": [ALLOC_STUB, ELEM_STUB, "user listeners (run seeded scripts that spawn, kill, watch, emit and throw re-entrantly)"],
        "state_measure": "hash over all living entities of pool index, tick subscription and listeners with their sources, and of the nesting of events, after each operation",
        "assumptions": ASSUME + ["An entity whose own signals are being emitted is destroyed when they are done; the world is not reset and the tick signal not moved during an emission."],
    },
}

PROPERTIES = {
    "M01": {"component": "pool"},
    "M02": {"component": "pool"},
    "M03": {"component": "pool"},
    "V01": {"component": "vector"},
    "V02": {"component": "vector"},
    "K01": {"component": "stackvec"},
    "K02": {"component": "stackarray"},
    "B01": {"component": "bitset"},
    "B02": {"component": "bitset"},
    "B03": {"component": "bitset"},
    "S01": {"component": "signal"},
    "S02": {"component": "signal"},
    "S03": {"component": "signal"},
    "R01": {"component": "result"},
    "R02": {"component": "result"},
    "C01": {"component": "callonexit"},
    "P01": {"component": "pimpl"},
    "F01": {"component": "funcref"},
    "W01": {"component": "movable"},
    "Z01": {"component": "sparse"},
    "E01": {"component": "enumarray"},
    "Y01": {"component": "flags"},
    "U01": {"component": "helpers"},
    "D01": {"component": "contract"},
    "G01": {"component": "system"},
}
