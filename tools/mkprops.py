#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  The single place where the property texts live.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Hash table, map and set behave as a dictionary under any history",
  "For any sequence of find, find-for-add plus add, remove, remove-if-exists, clear, iterate, erase-while-iterating and move, a hash table, hash map or hash set holds exactly the keys (and values) a plain dictionary would hold after the same operations, with each key stored at most once. A lookup finds a key exactly when it is present, whatever values the user's hash function returns and however many keys collide, and always terminates. Iteration visits every live element exactly once, the element count is exact, an insertion handle stays valid after its add, and moving a container transfers all contents and leaves the source empty, destructible and free to be initialised anew.",
  ["inputs", "histories"], "all operation sequences, all key sets, all hash functions (including constant ones and ones that give reserved slot markers), all initial capacities",
  "tests insert two or three short strings with one hash function; they never collide heavily, never resize, never reuse a deleted slot during a probe, and never iterate and erase",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
  [("open addressing with removed markers and probing", "am-hashtable.h lookup/lookupForAdd/insertUnique"), ("load-driven resize and rehash", "am-hashtable.h checkDensity/changeCapacity"), ("reserved hash remapping", "am-hashtable.h computeHash")],
  ["find().found(), elements(), iteration, removeIfExists"])

p("C02", "Hash containers destroy each element once and keep memory proportional",
  "Every key and value put into a hash container is destroyed exactly once: when it is removed, erased or cleared, or when the container that last held it is destroyed; growing, shrinking and moving never duplicate, leak or double-destroy an element, and elements are carried over by moving. All memory taken from the allocator is given back. The memory held stays within a constant factor of the largest number of elements that were live at once (or the initial capacity), however long the history of insertions and removals.",
  ["histories"], "all operation sequences over payloads that count constructions, moves and destructions, including long insert/remove churn",
  "tests never count destructions in a hash container and never run enough insertions and removals to grow or shrink it",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
  [("destroy on remove/clear/rehash/destructor", "am-hashtable.h HashTableEntry, changeCapacity, ~HashTable"), ("shrink below 25% load, grow above 75%", "am-hashtable.h underloaded/overloaded")],
  ["constructor/destructor counts of the payload, allocator live bytes, estimateMemoryUse()"])

p("C03", "Hash containers survive allocation failure and size overflow intact",
  "If the allocation policy refuses memory at any point of any history, the failing operation (initialise or add) returns false and the container still holds exactly what it held before, stays usable once memory is available again, and can be destroyed safely, also when initialisation itself failed. A request beyond the largest supported capacity, at initialisation or by growth, is reported to the policy as an overflow and returns false. The policy object a container exposes is the one its allocations really go through, it receives every allocate and free of the container, and its state travels with the container when it is moved.",
  ["histories", "fault_sequences"], "all histories with an allocation failure injected at any allocation, all capacities and element sizes near the limit",
  "no test uses a fallible allocation policy with a hash container, although the test runner header still defines one",
  ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h", "amtl/am-allocator-policies.h"],
  [("null checks and state commit order", "am-hashtable.h init/createTable/changeCapacity/internalAdd"), ("capacity limit", "am-hashtable.h kMaxCapacity, grow, init"), ("policy exposure", "am-hashmap.h/am-hashset.h allocPolicy")],
  ["return values, contents after failure, policy call log"])

p("C04", "Hash helpers depend only on the value and match their published definitions",
  "The character-sequence hash gives the same result for a byte sequence however it is split into pieces or single characters when fed to the streaming hasher, depends only on those bytes and the given length, and equals Bob Jenkins' one-at-a-time function with each character added as a plain char. The fast character hash equals the sdbm recurrence over exactly the given length. Integer and pointer hashes are functions of the value alone, 64-bit hashing equals Thomas Wang's published 64-to-32-bit mix, 4-byte and 8-byte integer hashing agree with the 32-bit and 64-bit functions, a pointer hashes as its integer value, and combining hashes equals the golden-ratio combine formula.",
  ["inputs"], "all byte strings, all ways of splitting them, all 32-bit and 64-bit integers",
  "no test checks any hash value; the map tests only need equal keys to hash equally",
  ["amtl/am-hashtable.h"],
  [("hash functions", "am-hashtable.h CharacterStreamHasher, HashCharSequence, FastHashCharSequence, HashInt32, HashInt64, HashPointer, HashCombine")],
  ["returned hash values"])

p("C05", "Inline list keeps exact order and membership under any history",
  "For any sequence of append, remove, erase through forward or reverse iterators, and self-removal of nodes, over any number of lists, forward iteration yields exactly the current members in insertion order, reverse iteration yields them reversed, and emptiness and length agree. A node reports being in a list exactly while it is a member, a removed node can be appended again to any list, erasing returns an iterator to the following element, and the list never touches anything but the link fields of its nodes. In debug builds destroying a list unlinks all its members.",
  ["histories", "configurations"], "all operation sequences over several lists and nodes, in debug and release builds",
  "the one test uses five nodes in one fixed order in a debug build, and never reverse iteration, self-removal, length or membership queries",
  ["amtl/am-inlinelist.h"],
  [("circular sentinel list", "am-inlinelist.h append/remove/erase"), ("membership flag by null links", "am-inlinelist.h isInList/removeFromParentList")],
  ["iteration, reverse iteration, empty(), length(), isInList()"])

p("C06", "Fixed array has value semantics, exact lifetimes and safe failed allocation",
  "After any sequence of sized construction, construction from vectors, copy, move, assignment (also to itself) and element writes, a fixed array has the length it was given, its elements are the ones a plain sequence would hold (default-initialised, copied or moved as appropriate), copies are independent of their source, a moved-from array is empty, and equality compares length and elements. Every element is constructed and destroyed exactly once and every block of memory is released through the policy it came from, which is the one passed in or carried by the source. If memory is refused or the byte size would overflow (which, and only which, is reported to the policy as an overflow), the array reports itself uninitialised and can still be assigned to and destroyed safely.",
  ["histories", "fault_sequences"], "all operation histories over counted element types, with allocation failures and size overflows injected",
  "no test includes this header at all",
  ["amtl/am-fixedarray.h", "amtl/am-allocator-policies.h"],
  [("placement construction loops", "am-fixedarray.h constructors"), ("destroy-then-copy assignment", "am-fixedarray.h operator ="), ("allocate/deallocate through the policy", "am-fixedarray.h allocate/deallocate")],
  ["size(), element values, construction counts, policy call log"])

p("C07", "Priority queue always serves a highest-priority element and loses none",
  "For any interleaving of add, emplace, peek, pop and move with any strict weak order as priority, each pop returns an element that no remaining element has higher priority than, peek returns what pop would return next, and the elements popped are exactly those added, each once, with their payload unchanged. This holds for move-only elements, for duplicates and for stateful comparators. Emptiness reports exactly whether elements remain, and every element is destroyed once.",
  ["inputs", "histories"], "all add/emplace/pop sequences, all element types and strict weak orders",
  "the only test adds six integers and pops them all, in one order",
  ["amtl/am-priority-queue.h"],
  [("sift-up and sift-down over a binary heap", "am-priority-queue.h propagateUp/propagateDown")],
  ["pop order and multiset of popped values"])

p("C08", "Vector and deque helpers do exactly the named edit",
  "Popping from the back (vector or deque) or front (deque) returns the value that was there and removes only it; inserting, emplacing or removing at an index shifts the other elements and changes nothing else; erase-if asks its predicate about each element once, front to back, removes exactly those it matched and keeps the order of the rest; extending by move appends all source elements in order and leaves the source empty. Move-only elements are supported wherever a value is moved, and no element is duplicated, lost or leaked.",
  ["inputs", "histories"], "all container contents, positions and predicates",
  "tests use a handful of fixed positions on small integer vectors; extending by move is not tested",
  ["amtl/am-vector.h", "amtl/am-deque.h"],
  [("thin wrappers over std containers", "am-vector.h, am-deque.h")],
  ["container contents after each call"])

p("C09", "Maybe holds at most one value, aligned, and destroys it exactly once",
  "An optional value is valid exactly when it was constructed, initialised, copied or moved from a valid one, and then gives back that value; copies are independent, moving leaves the source invalid, and assigning an optional to itself changes nothing. Across any history of construction, initialisation, re-initialisation, copy and move assignment (also to itself) and destruction, each stored value is constructed and destroyed exactly once. The stored value is always placed at an address aligned for its type.",
  ["histories"], "all operation histories over several optionals, with payload types of any size and alignment",
  "no test includes this header directly; the argument parser tests only read flags through it",
  ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"],
  [("initialised flag plus raw storage", "am-maybe.h init/copyFrom/moveFrom"), ("storage alignment", "am-storagebuffer.h StorageBuffer")],
  ["isValid(), value, construction counts, address of the value"])

p("C10", "A function object calls an owned copy of its target, and owns it exactly once",
  "A function object built or assigned from a callable calls its own copy of it, with arguments forwarded by value category and the result returned; copies keep working independently after the original is changed, reassigned or destroyed, and copying an empty function object gives an empty one. Moving transfers the target and leaves the source empty; assigning nullptr empties it; assigning to itself changes nothing; rvalue callables are moved in rather than copied. Every held callable is destroyed exactly once, and callables whose captures fit in two machine words are kept inside the object without heap allocation when built, assigned, moved or copied from a const source.",
  ["histories"], "all histories of construct, copy, move, assign, reset and call over callables of any size",
  "tests build each case once; they never copy empty objects, self-assign, or call a copy after its original is gone",
  ["amtl/am-function.h"],
  [("type-erased holder in inline buffer or heap", "am-function.h assign/move/destroy"), ("clone and move of holders", "am-function.h FunctionHolder")],
  ["call results, destruction counts, usingInlineStorage(), heap allocation counts"])

p("C11", "Reference-counting smart pointers keep objects alive exactly as long as held",
  "For any history of creating, copying, moving, assigning (also to itself, from a raw pointer it already holds, or from a pointer reachable only through the object being released), adopting, forgetting and destroying references, an object is destroyed exactly when the last reference to it goes away, and never while a reference exists. Adopting does not add a reference, taking or forgetting hands over the one held and leaves the source empty, and base/derived conversions preserve the count. The same holds for objects counted through the virtual interface.",
  ["histories"], "all operation histories over graphs of counted objects that hold references to one another",
  "the test performs a dozen fixed operations on independent objects; nothing self-assigns, releases chains or unwinds linked structures",
  ["amtl/am-refcounting.h", "amtl/am-raii.h"],
  [("AddRef/Release pairing", "am-refcounting.h RefPtr, AlreadyRefed, Refcounted, VirtualRefcounted")],
  ["destructor calls per object versus a reference model"])

p("C12", "Thread-safe reference counts destroy exactly once under every schedule",
  "When several threads add and release references to the same object concurrently, the object is destroyed exactly once, by the release that drops the last reference, and never while any thread still holds a reference. Everything the threads did with the object before releasing it happens before its destruction. This holds for both the plain and the virtual thread-safe base, through raw calls and smart pointers, and the plain base's release reports whether the object survives.",
  ["schedules", "histories"], "all interleavings of reference operations of two or more threads",
  "the tests use the thread-safe counters from one thread only, and the virtual one not at all",
  ["amtl/am-refcounting-threadsafe.h", "amtl/am-refcounting.h"],
  [("atomic increments and fetch-sub", "am-refcounting-threadsafe.h RefcountedThreadsafe, VirtualRefcountedThreadsafe")],
  ["destructor calls, accesses after destruction, happens-before order between use and destruction"])

p("C13", "Atomic reference reads and writes are linearizable and never yield a dead object",
  "Concurrent reads and assignments of one atomic reference behave as if each took effect at a single point: a read returns the object (or null) that was current at that point and an added reference to it, so the object stays alive until the reader releases it. Each replaced object loses exactly the reference the atomic reference held, so all objects are destroyed exactly once and none leaks. What a writer did to an object before publishing it is visible to a reader that obtains it, and the operations always complete.",
  ["schedules", "histories"], "all interleavings of gets and assignments by two or more threads",
  "tests use the atomic reference from a single thread",
  ["amtl/am-refcounting-threadsafe.h"],
  [("tag-bit spin lock around read+AddRef", "am-refcounting-threadsafe.h AtomicRef lock/unlock/get/operator =")],
  ["returned pointers, destructor calls, happens-before order between publish and use"])

p("C14", "Thread-local values are private to each thread, from the very first use",
  "A thread reads back the value it last set in a thread-local variable, or the default value if it has set none, whatever other threads set, also when several threads use the variable for the first time at once and when variables are created, destroyed and recreated. Different thread-local variables never affect each other. If the operating system has no slot left, explicit allocation reports failure every time, reads give the default value, a later allocation can succeed once a slot is free, and destroying the variable releases only a slot it owns; in single-threaded mode it acts as a plain variable.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all interleavings of first use and later use by several threads, all histories of creation and destruction, slot exhaustion at any point",
  "the tests join one thread before using the other, never race on first use and never exhaust the slots",
  ["amtl/am-threadlocal.h", "amtl/am-utility.h"],
  [("one-time slot allocation", "am-threadlocal.h allocate"), ("slot release", "am-threadlocal.h ~ThreadLocal")],
  ["get() per thread, number of live OS slots"])

p("C15", "Mutex excludes and its ownership assertion is exact",
  "At most one thread holds the mutex at a time, whichever of lock, try-lock, scoped locks or condition waits it was taken by; try-lock fails exactly when it is held by another thread, and work done under the lock happens before the next holder's work. In debug builds the ownership assertion passes in the thread that currently holds the mutex, however it was acquired, and aborts in any other thread or after the mutex was released; in release builds it does nothing.",
  ["schedules", "configurations"], "all interleavings of acquisition and release by several threads, in debug and release builds",
  "no test includes this header",
  ["amtl/am-mutex.h"],
  [("owner recorded on lock and cleared on unlock", "am-mutex.h Mutex")],
  ["mutual exclusion counters, outcome of AssertCurrentThreadOwns()"])

p("C16", "New threads run their function once with their own arguments and the given name",
  "Starting a named thread runs the given callable exactly once on a new thread, with copies (or moved-in values) of the arguments as they were at the call, so later changes or destruction of the caller's variables and of the name buffer do not affect it. The thread carries the given name (names that fit the platform limit) from before the callable starts, naming another or the current thread changes just that thread's name, and joining the returned thread waits for completion.",
  ["inputs", "schedules"], "all names up to the platform limit, all argument lists, all timings of the caller against the new thread",
  "the one test passes an integer and a literal name and does not look at the name",
  ["amtl/am-thread.h"],
  [("bound callback and copied name", "am-thread.h NewThread"), ("pthread naming", "am-thread.h SetThreadName")],
  ["observed arguments, thread name as the OS reports it"])

p("C17", "Bounded string writes stay in bounds, terminate and report the true length",
  "Copying, length-limited copying and formatting into a buffer of a given size never write outside that size, leave a terminated string that is the longest prefix of the full result that fits, and return exactly its length; a zero size (or, for copies, a null destination) writes nothing and returns zero. Appending keeps the existing text, adds the longest prefix that fits, leaves the buffer unchanged when there is no room, and returns the resulting length. The source is never read beyond its terminator or the given count.",
  ["inputs"], "all buffer sizes including zero and one, all strings, counts and format arguments",
  "tests use two or three buffer sizes with literals and do not guard the bytes around the buffer",
  ["amtl/am-string.h"],
  [("count-down copy loops", "am-string.h SafeStrcpy/SafeStrcpyN/SafeStrcat"), ("vsnprintf result clamping", "am-string.h SafeVsprintf/SafeSprintf")],
  ["buffer bytes, guard bytes, return values"])

p("C18", "Allocating printf returns the complete formatted text",
  "Formatting to an allocated buffer or to a string gives exactly the text the C library's printf family gives for the same format and arguments, with no truncation at any length, including empty results and embedded NUL characters in the string form. Variadic and va_list forms agree, the caller's argument list is consumed at most once, and nothing leaks.",
  ["inputs"], "all format strings over the standard conversions, all argument values, all output lengths",
  "tests format one short line",
  ["amtl/am-string.h"],
  [("measure, allocate, format again with a copied va_list", "am-string.h SprintfArgsImpl")],
  ["returned text and length compared with vsnprintf"])

p("C19", "Split and join are inverse, and affix, case and comparison helpers are exact",
  "Joining the pieces of a split with the same separator gives back the original string, no piece contains the separator, and the pieces are those of a left-to-right non-overlapping scan (none for an empty string); joining any list concatenates the pieces with the separator between neighbours only. Prefix and suffix tests hold exactly when the string begins or ends with the given text. Upper- and lower-casing change exactly the ASCII letters, and case-insensitive comparison orders strings as their lower-cased forms.",
  ["inputs"], "all strings and separators, including overlapping, repeated, leading and trailing separators, and bytes above 127",
  "tests try a handful of literals, never a multi-character or self-overlapping separator",
  ["amtl/am-string.h"],
  [("strstr scan", "am-string.h Split"), ("single-buffer join", "am-string.h Join"), ("affix and case helpers", "am-string.h StartsWith/EndsWith/Uppercase/Lowercase/StrCaseCmp")],
  ["returned vectors and strings"])

p("C20", "Bit scans, alignment and pointer tagging are arithmetically exact",
  "For every non-zero value of the full word width, the base-2 logarithm and leftmost-bit scans give the index of the highest set bit and the rightmost-bit scan the index of the lowest; the power-of-two test is exact. Aligning gives the smallest multiple of the alignment not below the value, the alignment test is exact, and the aligned base is the largest aligned address not above the given one. Setting pointer tag bits and then reading or clearing the same number of low bits gives back the tag and the original pointer. The size constants are powers of 1024, and blocks from malloc are aligned to the malloc alignment, which suits every fundamental type.",
  ["inputs"], "all 32-bit and 64-bit values, all power-of-two alignments, all pointers and tag widths",
  "tests check a dozen constants, and the logarithm only indirectly for 32-bit values",
  ["amtl/am-bits.h"],
  [("compiler bit-scan builtins", "am-bits.h Log2/FindLeftmostBit32/FindLeftmostBit64/FindRightmostBit"), ("modular alignment", "am-bits.h Align/IsAligned/AlignedBase"), ("pointer masks", "am-bits.h SetPointerBits/GetPointerBits/ClearPointerBits")],
  ["returned values compared with bit-by-bit computation"])

p("C21", "Overflow detectors are exact for every pair of operands",
  "The add and multiply safety tests answer yes exactly when the exact sum or product of the two operands fits their type, for 32-bit, 64-bit and pointer-sized operands. The checked add and multiply functions succeed exactly when the result fits, store that exact result, and leave the output untouched otherwise.",
  ["inputs"], "all pairs of 32-bit and 64-bit operands",
  "tests check two multiplications and no addition; the arithmetic header is not included by any test",
  ["amtl/am-bits.h", "amtl/am-arithmetic.h"],
  [("operand-size tests", "am-bits.h IsUintAddSafe/IsUintMultiplySafe"), ("wrap-around detection", "am-arithmetic.h TryUint64Multiply/TryUint32Add/TryUint64Add")],
  ["answers compared with 128-bit arithmetic"])

p("C22", "Floating-point classification and modulo follow their documented contract",
  "The NaN test holds exactly for NaNs and the infinity test exactly for positive and negative infinity, in single and double precision, for every bit pattern. Floating-point modulo returns the exact remainder with the sign of the dividend and a magnitude below the divisor's; it is NaN if either operand is NaN, the dividend is infinite or the divisor is zero, the dividend itself if the divisor is infinite, and a zero of the same sign for a zero dividend.",
  ["inputs"], "all single and double bit patterns and pairs of them",
  "no test includes this header",
  ["amtl/am-float.h"],
  [("exponent-mask test", "am-float.h IsInfinite"), ("fmod", "am-float.h FloatModulo")],
  ["returned booleans and bit patterns compared with integer arithmetic on the encoding"])

p("C23", "Typed flags and enum operators obey set algebra on every bit pattern",
  "For enums over any integral type, flag addition and or are set union, subtraction removes exactly the right-hand bits, and, xor and the enum complement act bitwise on the underlying value, and compound assignments equal the plain operator followed by assignment and return the assigned object. Equality, bits and conversion to boolean depend on the bits alone: true exactly when any bit is set. The generated enum operators and comparators agree with the same operation on the underlying integers.",
  ["inputs"], "all bit patterns of 8-, 16-, 32- and 64-bit signed and unsigned enums",
  "tests combine three flags of one 32-bit enum once",
  ["amtl/am-flags.h", "amtl/am-enum.h"],
  [("bitwise operators on the integral value", "am-flags.h Flags"), ("operator macros", "am-enum.h KE_DEFINE_ENUM_OPERATORS, KE_DEFINE_ENUM_COMPARATORS")],
  ["operator results compared with integer arithmetic"])

p("C24", "Scope helpers undo exactly once and in nesting order",
  "A save-and-set object changes its variable for its scope and restores the value seen at its construction; a stack-linked chain lists exactly the live scopes innermost first; a scope guard runs its callback exactly once when its scope ends unless it was cancelled, and moving a guard moves that duty so the callback still runs at most once. These hold for any nesting and any order of moves and cancels. Return-and-void returns the old value and leaves the variable default-valued.",
  ["histories"], "all nestings of the helpers and histories of set, move and cancel",
  "tests nest two guards and cancel one; the other helpers are not tested",
  ["amtl/am-raii.h"],
  [("restore in destructors", "am-raii.h SaveAndSet, StackLinked, ScopeGuard"), ("read-then-reset", "am-raii.h ReturnAndVoid")],
  ["variable values and callback counts at every scope exit"])

p("C25", "Time conversions are exact and formatting matches the C library",
  "Converting a timespec to a duration or time point keeps every nanosecond, for times before and after the epoch, and converting an epoch value to a time point keeps its count. Formatting a broken-down time gives exactly what the C library's time formatting gives for the same format, at any output length and for both kinds of format string.",
  ["inputs"], "all timespecs whose nanosecond count fits 64 bits, all broken-down times and format strings",
  "the one test converts a single positive timespec; formatting is not tested",
  ["amtl/am-time.h"],
  [("chrono casts", "am-time.h TimespecToDuration/TimespecToTimePoint/EpochValueToTimePoint"), ("put_time", "am-time.h FormatTime")],
  ["counts compared with 128-bit arithmetic, text compared with strftime"])

p("C26", "The argument parser accepts and rejects exactly its documented grammar",
  "For any set of options, any parser settings and any argument list, the parser accepts exactly the argument lists its grammar allows: long, short, equals, inline and slash forms, negated enables, omitted values, positionals in order, extra and passthrough arguments, repeat and stop options. On acceptance each option holds the value the grammar gives it (or its default), repeated options hold all their values in order, and extra and passthrough lists hold exactly the remaining arguments in order. Unknown options, malformed or out-of-range values, missing values or positionals and repeated single-use options make it return false, never crash or misread.",
  ["inputs", "configurations"], "all option sets, parser settings and argument lists",
  "tests try some twenty fixed command lines, one feature at a time",
  ["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp"],
  [("single pass over the arguments", "am-argparser.h parse_impl"), ("value policies", "am-argparser.h ValuePolicy"), ("option kinds", "am-argparser.h Option, EnableOption, ToggleOption, StopOption, RepeatOption")],
  ["parse() result, option values, extra_args(), passthrough_args()"])

p("C27", "Resetting an argument parser erases every trace of earlier parses",
  "After a reset, parsing any argument list gives the same result, option values, extra arguments, passthrough arguments and messages as a freshly built parser with the same options would give, whatever was parsed before and whether it succeeded or failed. The argc/argv, string-vector, pointer-vector and variadic entry points give the same outcome for the same arguments. Options registered statically belong to every parser created afterwards, and nothing leaks across parses.",
  ["histories", "inputs"], "all sequences of argument lists parsed by one parser with resets in between",
  "tests reset only between simple option parses and never after extras, passthrough arguments or errors",
  ["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp"],
  [("per-option and parser reset", "am-argparser.h Parser::reset"), ("entry points", "am-argparser.h parse/parsev")],
  ["parse results on a reused versus a fresh parser"])

p("C28", "Usage text names every argument, carries its whole help and the right error",
  "The usage text lists every registered positional, option form and extra usage entry in registration order, with the words of its help text complete and in order, and lines of help stay within 80 columns whenever single words allow it. After a failed parse it prints the usage line and an error naming the offending argument, option or value instead, unless full help was requested. The usage line names the program and the positionals in order, or the custom text.",
  ["inputs", "configurations"], "all option sets, help texts and failing command lines",
  "no test calls the usage functions",
  ["amtl/experimental/am-argparser.h"],
  [("two-column layout", "am-argparser.h Parser::usage/usage_line"), ("error messages", "am-argparser.h unrecognized_option and friends")],
  ["text written to the stream"])

p("C29", "Path, file and system-error helpers report what the system says, in bounds",
  "Formatted paths equal the formatted text with every backslash turned into a slash, truncated and terminated within the buffer, with the true length returned. Existence, regular-file and directory tests agree with the file system for every kind of entry, following symbolic links, and creating a directory succeeds exactly when none existed and the parent does, giving it the requested mode. System error text is the C library's message for the code, known or unknown, truncated and terminated within the buffer.",
  ["inputs", "histories"], "all formats and buffer sizes, all directory trees of files, directories, links, fifos and missing entries, all error codes",
  "one test formats one short path; the file helpers and error text are not tested",
  ["amtl/os/am-path.h", "amtl/os/am-fsutil.h", "amtl/os/am-fsutil-posix.h", "amtl/os/am-system-errors.h"],
  [("format then replace", "am-path.h FormatVa"), ("stat and mkdir", "am-fsutil-posix.h"), ("strerror_r handling", "am-system-errors.h FormatSystemErrorCode")],
  ["buffers, return values, file system state in a scratch directory"])

p("C30", "A shared library stays loaded exactly while referenced, and lookups are exact",
  "Opening a loadable library gives a valid reference and opening anything else gives null with the loader's message terminated within the caller's buffer and never beyond it. The library stays loaded while at least one reference exists and is unloaded when the last one goes, for any history of opening, copying and dropping references. Looking up a symbol gives its address in that library, or null if it has none.",
  ["histories", "inputs"], "all histories of open, copy, lookup and release over several libraries, all error buffer sizes",
  "one test opens the C library once and looks up one symbol",
  ["amtl/os/am-shared-library.h", "amtl/am-refcounting.h"],
  [("refcounted handle", "am-shared-library.h SharedLib"), ("dlopen/dlsym/dlclose", "am-shared-library.h Open/lookup")],
  ["constructor/destructor events of generated libraries, symbol values, error buffer bytes"])

p("C31", "The libstdc++ compatibility shims compute the plain math functions",
  "Each fast-math entry point that the compatibility source provides (power, two-argument arctangent, logarithm, arccosine and arcsine, in double and single precision) returns exactly the value the C library's function of the same name returns for the same arguments, in the same argument order, including infinities, NaNs, zeros and out-of-domain values. Each is a weak definition, so a real one takes precedence.",
  ["inputs"], "all argument values of each function",
  "nothing calls these functions; the build only compiles them",
  ["compat/stdcxx.cpp"],
  [("weak forwarding definitions", "compat/stdcxx.cpp")],
  ["returned bit patterns"])

p("C32", "The default allocation policy never returns null and release assertions hold",
  "With the default allocation policy an allocation request either returns usable memory of at least the requested size, which the policy's free releases, or the process aborts; it never returns null, and reporting exhaustion or overflow aborts. A release assertion aborts exactly when its condition is false, in debug and release builds, and evaluates the condition exactly once.",
  ["inputs", "fault_sequences", "configurations"], "all request sizes, allocation failure at any request, both build configurations",
  "no test makes an allocation fail or a release assertion fire",
  ["amtl/am-allocator-policies.h", "amtl/am-assert.h"],
  [("abort on null", "am-allocator-policies.h SystemAllocatorPolicy"), ("assert or abort", "am-assert.h KE_RELEASE_ASSERT")],
  ["exit status of forked cases, memory contents"])

p("C33", "Utility macros, casts and link-once variables do exactly what they say",
  "Zeroing an object clears every byte of it and none outside it. The alignment test holds exactly for addresses that are multiples of the given power of two, also for 64-bit addresses and alignments; the array length is the number of elements; casting a pointer-sized or smaller integer, enum or pointer to a pointer keeps its value. The likely-hint has the truth value of its condition, evaluated once, and the unused sink evaluates its operand once without copying it. A link-once variable defined in several parts of a library is one variable, an exported function can be looked up and a private one cannot, whatever the default visibility; the platform macros name one architecture, one system and one compiler, and the right ones.",
  ["inputs", "histories"], "all addresses, alignments, values and object types; all histories of reads and writes of link-once variables through the parts of a library",
  "no test includes these headers for themselves",
  ["amtl/am-utility.h", "amtl/am-cxx.h", "amtl/am-linking.h", "amtl/am-unused.h", "amtl/am-platform.h"],
  [("MemsetZero, IS_ALIGNED, ARRAY_LENGTH, cast_to_pointer", "am-utility.h"), ("weak and visibility attributes", "am-cxx.h KE_LINKONCE, am-linking.h")],
  ["returned values, bytes around the object, dlsym"])

p("C34", "Any headers, in any order, in any number of units, make one program",
  "Every header can be included by itself, together with any others, in any order and more than once, in any number of translation units of one program, with gcc or clang, in C++17 or C++20, with or without assertions, single-threading and the standard enum traits: the units compile, link with each other without clashing or missing symbols, do what each header promises, and agree on the layout of every type whatever each of them included before.",
  ["inputs"], "all sequences of headers per unit, all numbers of units, both compilers, all documented configuration macros",
  "the tests include few headers per file, in one order, with one compiler and one language version",
  ["amtl/"],
  [("include guards and the headers' own includes", "every header"), ("static, inline and template definitions", "every header"), ("KE_ALLOW_STD_CXX", "am-enum.h"), ("KE_SINGLE_THREADED", "am-threadlocal.h")],
  ["compilation and linking of the program, values its parts return, sizeof of its types"])

p("C35", "A build with assertions stops at misuse, and only at misuse",
  "In a build with assertions, after any correct history, a use that breaks a documented precondition stops the program at an assertion, before any memory is corrupted: an array index or last element out of range, the value of an empty Maybe, a call of an empty Function, peek or pop of an empty queue, reading or removing through a hash result that found nothing, adding at an insertion point that is taken, erasing through an ended or erased iterator, a table capacity that is not a power of two, appending a node that is already in a list, ending links out of order, releasing an object without references or referencing one being destroyed, an unaligned atomic reference, scanning zero for bits, an alignment that is not a power of two, an empty separator, an option without a usable form. No correct use stops it.",
  ["inputs", "histories"], "all histories of these types and all last uses",
  "the tests never misuse anything: a removed or inverted assertion, or one that is off by one, passes them all",
  ["amtl/am-fixedarray.h", "amtl/am-maybe.h", "amtl/am-function.h", "amtl/am-priority-queue.h", "amtl/am-hashtable.h", "amtl/am-inlinelist.h", "amtl/am-raii.h", "amtl/am-refcounting.h", "amtl/am-refcounting-threadsafe.h", "amtl/am-bits.h", "amtl/am-string.h", "amtl/experimental/am-argparser.h"],
  [("at/back", "am-fixedarray.h"), ("get/operator->", "am-maybe.h"), ("invoke", "am-function.h"), ("peek/pop", "am-priority-queue.h"), ("payload/add/remove/erase/init", "am-hashtable.h"), ("append", "am-inlinelist.h"), ("~StackLinked", "am-raii.h"), ("Release", "am-refcounting.h"), ("Log2, FindLeftmostBit, Align", "am-bits.h"), ("Split", "am-string.h"), ("IOption", "am-argparser.h")],
  ["how the process ends, and at which step"])

p("C36", "Threads that share no changing object do not disturb each other",
  "Calls into any part of the library from several threads at once, in which each thread works on objects of its own (strings, formats, tables, arrays, lists, queues, references, functions, parsers, paths, files, libraries, locks) or only reads, finds, copies or asks objects that nobody changes, give each thread exactly what the same calls give alone, in every schedule and from the first call of the process on, and never access the same memory in conflicting ways without ordering: there is no hidden shared state, and const operations do not write.",
  ["inputs", "schedules"], "all calls and all interleavings at memory-access granularity, including the first call in a process",
  "the tests run nearly everything in one thread, where a static buffer, a cached lookup or a lazily filled table works; the damage needs two threads at one particular moment",
  ["amtl/am-string.h", "amtl/am-hashtable.h", "amtl/am-fixedarray.h", "amtl/am-function.h", "amtl/am-maybe.h", "amtl/am-priority-queue.h", "amtl/am-time.h", "amtl/am-bits.h", "amtl/am-float.h", "amtl/os/am-path.h", "amtl/os/am-system-errors.h", "amtl/os/am-shared-library.h", "amtl/os/am-fsutil-posix.h", "amtl/experimental/am-argparser.h"],
  [("SprintfArgsImpl, Join, Split", "am-string.h"), ("lookup", "am-hashtable.h"), ("FormatTime", "am-time.h"), ("FormatSystemErrorCode", "am-system-errors.h"), ("Parser", "am-argparser.h")],
  ["what the calls return, and which memory they access"])

p("C37", "The library's own types can be kept in its containers, in each other and in the standard containers",
  "References, function wrappers, optional values, fixed arrays, flag sets, hash maps and sets, priority queues and standard owning pointers, kept as elements of the vector and deque helpers, hash maps, priority queues, fixed arrays, optional values, reference-counted objects, guards and the standard containers, behave as the values they stand for: whatever the container inserts, moves, swaps, grows, sorts, removes or destroys, each element still holds, finds, calls or refers to exactly what was put in, copies are independent, move-only elements are never copied, a counted object lives exactly as long as some element refers to it, every element is destroyed once, and a value that owns others of its kind can be replaced by one of those.",
  ["inputs", "histories"], "all combinations of element and container type listed, and all histories of container operations over them",
  "the tests keep integers and strings in containers; a move or copy that leaves an element wrong, shared, dangling or counted twice shows only after the container has moved that element in a particular way",
  ["amtl/am-vector.h", "amtl/am-deque.h", "amtl/am-hashmap.h", "amtl/am-hashset.h", "amtl/am-hashtable.h", "amtl/am-priority-queue.h", "amtl/am-fixedarray.h", "amtl/am-maybe.h", "amtl/am-function.h", "amtl/am-refcounting.h", "amtl/am-refcounting-threadsafe.h", "amtl/am-raii.h", "amtl/am-flags.h"],
  [("RefPtr moves and assignments", "am-refcounting.h"), ("Function moves", "am-function.h"), ("Maybe moves", "am-maybe.h"), ("HashTable moves and resizes", "am-hashtable.h"), ("FixedArray copies and moves", "am-fixedarray.h")],
  ["what each element holds after a history", "constructions and destructions of what the elements own"])

p("C38", "User code that the library calls may itself use the library",
  "Hash functions, comparisons, orders, predicates, wrapped callables, scope guards, option types, allocators, and the constructors, assignments and destructors of elements and counted objects may call any part of the library on other objects (of the same types, too), or look something up in the table that is being searched, to any depth; both the outer and the inner operation do exactly what they do on their own, and results already obtained stay as they were.",
  ["inputs", "histories"], "all pairs of outer operation, point at which it calls user code, and inner operation",
  "the tests never call the library from inside a call the library makes; scratch space that is static or per thread works until two uses of it are nested, and no race detector sees that",
  ["amtl/am-hashtable.h", "amtl/am-priority-queue.h", "amtl/am-fixedarray.h", "amtl/am-vector.h", "amtl/am-function.h", "amtl/am-maybe.h", "amtl/am-refcounting.h", "amtl/am-refcounting-threadsafe.h", "amtl/am-raii.h", "amtl/am-string.h", "amtl/experimental/am-argparser.h"],
  [("lookup, lookupForAdd, changeCapacity", "am-hashtable.h"), ("propagateUp, propagateDown", "am-priority-queue.h"), ("EraseIf", "am-vector.h"), ("invoke", "am-function.h"), ("Release", "am-refcounting.h"), ("parse_impl", "am-argparser.cpp")],
  ["what outer and inner operations return and leave behind"])

p("C39", "The work of an operation grows no faster than its kind needs",
  "Over any history, adding, finding, missing and removing in a hash table takes a number of steps on average that does not depend on how many entries it holds, for keys in runs, strides and patterns hashed with the hash functions that the library offers, while it grows, shrinks, stays level, or has been emptied; adding to and serving from a priority queue takes logarithmic steps; appending to and removing from a list, popping, and moving a table, queue or array take constant steps; filtering or extending a vector, copying, assigning or comparing an array, iterating, splitting, joining, formatting, copying and hashing text, and parsing arguments take steps in proportion to what they go over.",
  ["inputs", "histories"], "all sizes, key patterns and orders of operations",
  "the tests use a handful of elements, where a quadratic or a degenerate structure gives the same answers in the same time",
  ["amtl/am-hashtable.h", "amtl/am-priority-queue.h", "amtl/am-inlinelist.h", "amtl/am-fixedarray.h", "amtl/am-vector.h", "amtl/am-deque.h", "amtl/am-string.h", "amtl/experimental/am-argparser.cpp"],
  [("overloaded, underloaded, changeCapacity, HashInt32", "am-hashtable.h"), ("propagateUp, propagateDown", "am-priority-queue.h"), ("EraseIf", "am-vector.h"), ("Split, Join, SprintfArgsImpl", "am-string.h"), ("parse_impl", "am-argparser.cpp")],
  ["the number of steps that a history takes, at two sizes"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
