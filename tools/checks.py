# What each check builds and how its cases are made.  Counts live in the harnesses; "scale"
# multiplies them per tier.
A = "ASan and UBSan report the memory errors they are built to report"
T = "the harness's reference model and its lifetime-tracked element type are right"
S = "schedules are sequentially consistent interleavings at every shared access, with happens-before race detection from the memory orders the code asks for; a result that only a weaker memory model can produce is reported as a race or not at all"
CHECKS = {
 "C01": dict(headers=["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"], scale=2, scale_thorough=12,
   fuzz=[dict(target="Table", seconds=60), dict(target="Map", seconds=60), dict(target="Set", seconds=60)],
   rule="Random operation histories (find, add through an insertion handle, remove, erase while iterating, clear, move, re-init) against std::map-like models, over hash functions that collide totally, partly, or hit the reserved markers. Non-trivial: the history made the table resize or reused a removed slot.",
   assumptions=[A, T]),
 "C02": dict(headers=["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"], scale=2, scale_thorough=12,
   fuzz=[dict(target="Table", seconds=60), dict(target="Map", seconds=60), dict(target="Set", seconds=60)],
   rule="The histories of C01 over elements that count constructions and destructions, with an allocator that records every block, and long insert/remove churn for the memory bound. Non-trivial: elements were removed or carried over by a resize or move.",
   assumptions=[A, T]),
 "C03": dict(headers=["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"], scale=2, scale_thorough=12,
   fuzz=[dict(target="Table", seconds=60), dict(target="Map", seconds=60), dict(target="Set", seconds=60)],
   rule="Histories with an allocation failure injected at drawn allocations, capacities and element sizes around the limits. Non-trivial: at least one allocation was refused or an overflow was reported while the table was in use.",
   assumptions=[A, T]),
 "C04": dict(headers=["amtl/am-hashtable.h"], scale=8, scale_thorough=8,
   rule="Random byte strings, split points, seeds and integers; results compared with independent transcriptions of the published functions. Non-trivial: the input is longer than one byte or wider than 32 bits.",
   assumptions=["the reference transcriptions of one-at-a-time, sdbm and Wang's mixes are right", "plain char is signed, as on this platform"]),
 "C05": dict(headers=["amtl/am-inlinelist.h"], scale=8, scale_thorough=8,
   fuzz=[dict(target="OneType", seconds=90), dict(target="TwoTypes", seconds=90)],
   rule="Random histories over several lists and nodes (append, remove, erase through either iterator, self-removal, re-append) against std::vector models. Non-trivial: a node was removed and appended again, or erased during iteration.",
   assumptions=[A, T]),
 "C06": dict(headers=["amtl/am-fixedarray.h"], scale=8, scale_thorough=8,
   fuzz=[dict(target="ValueSemantics", seconds=90), dict(target="FailedAllocation", seconds=90)],
   rule="Random histories of construct, copy, move, assign and write over several arrays with counted elements, recorded allocations and injected failures and overflows. Non-trivial: an assignment or move between non-empty arrays, or a failed allocation.",
   assumptions=[A, T]),
 "C07": dict(headers=["amtl/am-priority-queue.h"], scale=8, scale_thorough=8,
   fuzz=[dict(target="CopyableItems", seconds=90), dict(target="MoveOnlyItems", seconds=90)],
   rule="Random interleavings of add, emplace, peek, pop and move under several strict weak orders (stateful, partial ranks with duplicates, move-only elements) against a multiset. Non-trivial: a pop with at least three elements queued.",
   assumptions=[A, T]),
 "C08": dict(headers=["amtl/am-vector.h", "amtl/am-deque.h"], scale=8, scale_thorough=8,
   fuzz=[dict(target="VectorCopyable", seconds=90), dict(target="DequeCopyable", seconds=90)],
   rule="Random edit histories on vectors and deques of copyable, move-only and counted elements against hand-written list models. Non-trivial: an edit strictly inside the container or an erase-if that kept and removed elements.",
   assumptions=[A, T]),
 "C09": dict(headers=["amtl/am-maybe.h", "amtl/am-storagebuffer.h"], scale=20, scale_thorough=8,
   fuzz=[dict(target="CopyableValue", seconds=90), dict(target="MoveOnlyValue", seconds=90)],
   rule="Random histories of init, copy, move and assignment over several optionals with counted values, and placements of values of every alignment up to 64. Non-trivial: an assignment to or from a valid optional; every placement.",
   assumptions=[A, T]),
 "C10": dict(headers=["amtl/am-function.h"], scale=15, scale_thorough=8,
   fuzz=[dict(target="History", seconds=180)],
   rule="Random histories of construct, copy, move, assign, reset and call over several function objects with targets of two to ten words; random argument tuples for forwarding. Non-trivial: a function object was copied, moved or reassigned while non-empty and then called.",
   assumptions=[A, T, "the inline guarantee for copies excludes construction from a non-const lvalue (listed finding)"]),
 "C11": dict(headers=["amtl/am-refcounting.h"], scale=15, scale_thorough=8,
   fuzz=[dict(target="Plain", seconds=60), dict(target="Virtual", seconds=60), dict(target="Interface", seconds=60)],
   rule="Random histories over pointers held on the stack and inside objects, with raw, adopted, base and derived references, self-assignment and assignment from a pointer owned by the object being released. Non-trivial: an object died through an assignment or a converted reference.",
   assumptions=[A, T]),
 "C12": dict(headers=["amtl/am-refcounting-threadsafe.h", "amtl/am-refcounting.h"], configs=["sched-debug", "sched-release"], scale=2, scale_thorough=10,
   rule="Random reference histories in three to five threads over one object (raw calls, adopted, copied, moved and assigned pointers), run under random schedules that may switch threads before every shared access; accesses after destruction, unordered accesses, missing and double destruction are failures. Non-trivial: at least three preemptions beyond the number of threads.",
   assumptions=[S, T]),
 "C13": dict(headers=["amtl/am-refcounting-threadsafe.h", "amtl/am-refcounting.h"], configs=["sched-debug", "sched-release"], scale=4, scale_thorough=10,
   rule="Random histories of reads and assignments of two atomic references in two to four threads under random schedules, with objects that read a reference in their destructor and with memory that is reused or kept; every history is checked for linearizability by search, every object for its one destruction. Non-trivial: an assignment overlaps another operation on the same reference in time.",
   assumptions=[S, T]),
 "C14": dict(headers=["amtl/am-threadlocal.h"], configs=["sched-debug", "sched-release", "single"], workers=3, scale=2, scale_thorough=8,
   rule="Random histories of phases in which two to four threads get, set and allocate variables of eleven types at once under random schedules, while variables are destroyed and made again between phases and the system may have only a few slots; every thread's reads compared with what it set, the slots with the variables that exist. Built with KE_SINGLE_THREADED as well, against plain variables. Non-trivial: several threads use a variable in its first phase, one of them writing; or an allocation was refused; single-threaded: a variable was written twice.",
   assumptions=[S, T, "thread-specific slots come from pthread_key_create"]),
 "C15": dict(headers=["amtl/am-mutex.h"], configs=["sched-debug", "sched-release"], scale=3, scale_thorough=10,
   rule="Random programs of two to four threads that take two mutexes in eight ways (lock, try_lock, guards, unique and scoped locks, std::lock) and wait on condition variables, under random schedules; a model knows the holder, plain counters under the lock show lost or unordered updates, and the assertion is tried inside, outside and between. Non-trivial: a thread found a mutex busy.",
   assumptions=[S, T, "the operating system's mutex works; what is checked is what the library adds to it"]),
 "C16": dict(headers=["amtl/am-thread.h"], configs=["sched-debug", "sched-release"], scale=12, scale_thorough=12,
   rule="One to three threads started under random schedules with nine kinds of callable and argument lists (lambdas, functors, functions, members, moved-in and move-only values) and random names, whose caller changes and destroys everything it passed at once; names as the system reports them, arguments, run counts and completion at join are compared. Non-trivial: the caller went on before the new thread had run.",
   assumptions=[S, T, "names of at most 15 bytes, the limit of this platform"]),
 "C17": dict(headers=["amtl/am-string.h"], scale=15, scale_thorough=8,
   fuzz=[dict(target="CopyN", seconds=60), dict(target="Append", seconds=60), dict(target="Format", seconds=60)],
   rule="Random texts, buffer sizes around the text's length, counts, and format strings with matching arguments; buffers lie between guard bytes in exact-sized heap blocks. The oracle is the full text (from the C library for formats) cut to the buffer. Non-trivial: the text does not fit or just fits, or the count cuts it.",
   assumptions=[A, "the C library's printf is right", "integer arguments may be passed as 64-bit slots, as on the 64-bit ABIs"]),
 "C18": dict(headers=["amtl/am-string.h"], scale=15, scale_thorough=8,
   rule="Random formats over all standard conversions, flags, widths and precisions with matching arguments, and long texts; compared with snprintf. Non-trivial: longer than two bytes or at least two arguments.",
   assumptions=[A, "the C library's printf is right", "integer arguments may be passed as 64-bit slots, as on the 64-bit ABIs"]),
 "C19": dict(headers=["amtl/am-string.h"], scale=6, scale_thorough=5,
   fuzz=[dict(target="SplitJoin", seconds=60), dict(target="Affixes", seconds=60), dict(target="Case", seconds=60)],
   rule="Random strings over tiny alphabets (so separators repeat and overlap), all bytes, affixes derived from the string, and case-flipped pairs; compared with byte-by-byte models, plus the join-of-split round trip. Non-trivial: the separator occurs, the affix is non-empty, or the text has letters.",
   assumptions=[A, "the process runs in the C locale"]),
 "C20": dict(headers=["amtl/am-bits.h"], scale=10, scale_thorough=4, configs=["debug", "release"],
   rule="Random 64-bit values concentrated near powers of two, every power-of-two alignment, every tag width up to 48; compared with bit-by-bit computation and 128-bit arithmetic. Non-trivial: the value needs more than 32 bits, or the alignment or tag is larger than one.",
   assumptions=["64-bit size_t; an alignment whose next multiple does not fit size_t is outside the claim"]),
 "C21": dict(headers=["amtl/am-bits.h", "amtl/am-arithmetic.h"], scale=10, scale_thorough=4,
   rule="Random operand pairs, half of them placed within three of the exact limit of the sum or product; compared with 128-bit arithmetic. Non-trivial: the exact result is at least half the limit.",
   assumptions=["128-bit arithmetic of the compiler is right"]),
 "C22": dict(headers=["amtl/am-float.h"], scale=8, scale_thorough=4,
   rule="Random bit patterns of both precisions weighted to zeros, subnormals, infinities, NaNs, extreme binades and near multiples; classification compared with the encoding, modulo with long division of the encodings. Non-trivial: a special operand or an inexact division.",
   assumptions=["IEEE 754 encodings", "round-to-nearest mode"]),
 "C23": dict(headers=["amtl/am-flags.h", "amtl/am-enum.h"], scale=8, scale_thorough=4,
   rule="Random bit patterns for enums of eight integral types (plus unscoped ones and ones without operators), every operator and chains of compound edits; compared with integer arithmetic. Non-trivial: both operands have bits and neither contains the other.",
   assumptions=["enums have a fixed underlying type"]),
 "C24": dict(headers=["amtl/am-raii.h"], scale=15, scale_thorough=6, flags=["-fexceptions"],
   rule="Random programs of nested scopes (save-and-set, links, guards made, moved and cancelled in any order, return-and-void), checked at every scope entry and exit against a model, and scopes left by exceptions. Non-trivial: at least two helpers live at once or a guard moved.",
   assumptions=[A, T]),
 "C25": dict(headers=["amtl/am-time.h"], scale=8, scale_thorough=4,
   rule="Random timespecs over the whole representable range, epoch values of several clocks and widths, broken-down times and formats over every C conversion; compared with 128-bit arithmetic and strftime. Non-trivial: not a whole second, or at least two conversions.",
   assumptions=["the C library's strftime is right", "the process runs in the C locale", "normalised timespecs whose seconds alone fit the nanosecond count"]),
 "C26": dict(headers=["amtl/experimental/am-argparser.h"], repo_sources=["amtl/experimental/am-argparser.cpp"], scale=8, scale_thorough=5,
   fuzz=[dict(target="Grammar", seconds=150), dict(target="Bytes", seconds=60)],
   rule="Random option sets of eight kinds with colliding and nested names, random parser settings, and argument lists made by writing the options in every form with values around their limits, plus garbage and arbitrary bytes; accept or reject and every resulting value compared with an independent reading of the grammar. Non-trivial: three or more arguments, or an inline, negated, omitted-value or stop rule applied.",
   assumptions=[A, "no two options of a parser share a name", "an inline separator with nothing after it belongs to the value, as the code comments say"]),
 "C27": dict(headers=["amtl/experimental/am-argparser.h"], repo_sources=["amtl/experimental/am-argparser.cpp"], scale=2, scale_thorough=4,
   fuzz=[dict(target="Reset", seconds=90), dict(target="EntryPoints", seconds=90)],
   rule="Random histories of parses and resets on one parser, each parse after a reset compared with a fresh parser (result, every value, lists, and the usage or error text); one list through all four entry points; random histories of static registrations, parser constructions and parses, each in its own process. Non-trivial: an earlier parse had arguments; at least two arguments; a parser with static options parsed.",
   assumptions=[A, "no two options of a parser share a name"]),
 "C28": dict(headers=["amtl/experimental/am-argparser.h"], repo_sources=["amtl/experimental/am-argparser.cpp"], scale=2, scale_thorough=3,
   fuzz=[dict(target="Listing", seconds=90), dict(target="Errors", seconds=90)],
   rule="Random option sets with names and help words of random length, all distinct, whose usage text is read back token by token: every form and help word once, in order, next to its own argument, within 80 columns where words allow; random command lines whose error must name what the grammar blames. Non-trivial: a help text that wraps or a long name; a command line that fails.",
   assumptions=[A, "the usage text may lay its words out in any way that keeps forms, help words and their order"]),
 "C29": dict(headers=["amtl/os/am-path.h", "amtl/os/am-fsutil.h", "amtl/os/am-system-errors.h"], scale=4, scale_thorough=3,
   rule="Random path formats and buffer sizes; random histories that build and change a small tree of files, directories, links, fifos and sockets in a scratch directory (as an unprivileged user) and query every path after opening it independently; random error codes and buffer sizes. Non-trivial: a backslash or truncation; a link or a refused directory; an unknown code or truncation.",
   assumptions=[A, "open(O_PATH) and fstat, printf and strerror_r of the C library are right"]),
 "C30": dict(headers=["amtl/os/am-shared-library.h"], scale=5, scale_thorough=3,
   prepare=["for i in 0 1 2; do gcc -shared -fPIC -O1 -DID=$i -DLONG=vp_$(printf %0700d 1) {H}/aux_c30_lib.c -o {B}/libc30_$i.so || exit 1; done",
            "gcc -shared -fPIC -O1 -DID=3 -DLONG=vp_long -DUNDEF {H}/aux_c30_lib.c -o {B}/libc30_undef.so",
            "echo 'not a library' > {B}/libc30_bad.so; : > {B}/libc30_empty.so; head -c 200 {B}/libc30_0.so > {B}/libc30_trunc.so"],
   libs=["-rdynamic"],
   rule="Random histories of open, copy, move, drop and lookup over three generated libraries that report their own loading and unloading, and failing opens of seven kinds with guarded error buffers of random size. Non-trivial: a library referenced more than once; a message that does not fit.",
   assumptions=[A, "the dynamic loader unloads a library at the last dlclose, as glibc does for plain C libraries"]),
 "C31": dict(headers=[], repo_sources=["compat/stdcxx.cpp"], scale=4, scale_thorough=3,
   prepare=["g++ -std=c++17 -O2 -fPIC -c {R}/compat/stdcxx.cpp -o {B}/c31_shim.o",
            "gcc -O1 -fPIC -fno-builtin -c {H}/aux_c31_real.c -o {B}/c31_real.o",
            "g++ -shared {B}/c31_shim.o {B}/c31_real.o -o {B}/libc31real.so"],
   rule="Random arguments (special values, unit interval, all bit patterns) for each of the ten functions, compared with the plain function; and a library holding both the shims and real definitions, called with random arguments. Non-trivial: the result is a number and the two arguments differ.",
   assumptions=["the C library's math functions are deterministic"]),
 "C32": dict(headers=["amtl/am-allocator-policies.h", "amtl/am-assert.h"], scale=3, scale_thorough=3,
   libs=["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign")],
   rule="Random allocation histories through the policy; requests that cannot be satisfied, by size or by a refused malloc, in forked children; release assertions over conditions of many types in forked children. Non-trivial: a used block, a refused allocation, a false condition.",
   assumptions=[A, "the policy allocates through the C allocation functions, called from its own header"]),
 "C33": dict(headers=["amtl/am-utility.h", "amtl/am-cxx.h", "amtl/am-linking.h", "amtl/am-unused.h", "amtl/am-platform.h"], scale=3, scale_thorough=3,
   prepare=["for v in hidden default; do g++ -std=c++17 -O1 -fPIC -I{R} -fvisibility=$v -shared -DPART=0 -x c++ {H}/aux_c33.cpp -c -o {B}/c33_$v.0.o && "
            "g++ -std=c++17 -O1 -fPIC -I{R} -fvisibility=$v -DPART=1 -c {H}/aux_c33.cpp -o {B}/c33_$v.1.o && "
            "g++ -shared {B}/c33_$v.0.o {B}/c33_$v.1.o -o {B}/libc33_$v.so || exit 1; done"],
   rule="Random addresses, alignments, array types and lengths, values of ten types and blocks with neighbours for the utility macros and casts, compared with loops over bits and bytes; random histories of writes and reads of link-once variables through the two parts of a generated library. Non-trivial: a block with neighbours, an unaligned address, a value of more than 32 bits, a read.",
   assumptions=[A, "64-bit Linux; GNU attributes"]),
 "C34": dict(headers=["amtl/am-platform.h"], configs=["release"], workers=8, scale=1, scale_thorough=1,
   prepare=["g++ -std=c++17 -O1 -fno-exceptions -D_LINUX -DPOSIX -I{R} -c {R}/amtl/experimental/am-argparser.cpp -o {B}/c34_argparser.o"],
   rule="Generated programs of one to three translation units; each unit has its own compiler (gcc, clang), language version, sequence of headers (one, a few or most of them, in random order, some twice) and a function per header that uses what it declares; the program is compiled, linked and run. Non-trivial: two headers in one unit, or one header in two units.",
   assumptions=["gcc 13 and clang 18 on 64-bit Linux; all units of a program agree on NDEBUG and KE_SINGLE_THREADED; compilers that cannot be run are skipped, not reported"]),
 "C35": dict(headers=["amtl/am-bits.h", "amtl/am-fixedarray.h", "amtl/am-function.h", "amtl/am-hashtable.h", "amtl/am-inlinelist.h", "amtl/am-maybe.h",
                      "amtl/am-priority-queue.h", "amtl/am-raii.h", "amtl/am-refcounting.h", "amtl/am-refcounting-threadsafe.h", "amtl/am-string.h",
                      "amtl/experimental/am-argparser.h"],
   repo_sources=["amtl/experimental/am-argparser.cpp"], configs=["debug"], workers=8, scale=1, scale_thorough=1,
   rule="Random correct histories of arrays, maybes, functions, queues, hash tables, lists, links and references, each followed by one use that a model calls misuse or correct; zero and non-zero words and alignments; separators; option forms. Each runs in a child, which must be stopped by an assertion at the last use exactly if that is misuse. Non-trivial: the last use is misuse or only just not.",
   assumptions=[A, "assertions are enabled (no NDEBUG)", "misuse that the headers do not promise to detect (such as reading a hash iterator that has ended) is not generated"]),
 "C36": dict(headers=sorted("amtl/" + h for h in (
                 "am-arithmetic.h am-bits.h am-deque.h am-enum.h am-fixedarray.h am-flags.h am-float.h am-function.h am-hashmap.h am-hashset.h am-hashtable.h "
                 "am-inlinelist.h am-maybe.h am-mutex.h am-priority-queue.h am-raii.h am-refcounting-threadsafe.h am-refcounting.h am-string.h am-threadlocal.h "
                 "am-time.h am-utility.h am-vector.h experimental/am-argparser.h os/am-fsutil.h os/am-path.h os/am-shared-library.h os/am-system-errors.h").split()),
   configs=["sched-debug", "sched-release"], repo_sources=["amtl/experimental/am-argparser.cpp"], scale=1, scale_thorough=1,
   libs=["-Wl,--wrap=" + f for f in ("vsnprintf snprintf strlen strcmp strncmp strcasecmp memcmp strcpy strncpy strerror_r strftime").split()] + ["-ldl"],
   technique="concurrent property-based testing: generated calls in several threads under generated schedules with race detection, compared with the same calls alone",
   rule="Two to four threads, each with one to three of forty kinds of call from all headers on data of its own or on common objects that nobody changes, under random schedules that may switch threads before every access to memory; in a fresh process, all alike, or mixed. What each call gives is compared with what it gives alone, and unordered accesses to the same memory are failures. Non-trivial: a call began while another was under way.",
   assumptions=[S, T, "the C library's functions are safe to call from several threads where their documentation says so"]),
 "C37": dict(headers=sorted("amtl/" + h for h in (
                 "am-vector.h am-deque.h am-hashmap.h am-hashset.h am-hashtable.h am-priority-queue.h am-fixedarray.h am-maybe.h am-function.h "
                 "am-refcounting.h am-refcounting-threadsafe.h am-raii.h am-flags.h am-inlinelist.h").split()),
   scale=3, scale_thorough=20,
   fuzz=[dict(target="Nested", seconds=60), dict(target="References", seconds=60)],
   rule="Random histories over pairs of element and container: references, function wrappers, optional values, arrays, flags, tables, queues and owning pointers in the vector and deque helpers, maps, queues, arrays, optionals, counted objects, guards and standard containers, compared with plain numbers in plain containers; owned values count their constructions and destructions; and trees of optionals, arrays and references in which a part replaces its owner. Non-trivial: at least two elements at once, and one moved, replaced or removed; a part that replaced its owner.",
   assumptions=[A, T]),
 "C38": dict(headers=sorted("amtl/" + h for h in (
                 "am-hashtable.h am-hashmap.h am-hashset.h am-priority-queue.h am-fixedarray.h am-vector.h am-deque.h am-function.h am-maybe.h am-refcounting.h "
                 "am-refcounting-threadsafe.h am-raii.h am-string.h am-threadlocal.h am-inlinelist.h os/am-path.h os/am-system-errors.h experimental/am-argparser.h").split()),
   repo_sources=["amtl/experimental/am-argparser.cpp"], scale=12, scale_thorough=20,
   fuzz=[dict(target="Tables", seconds=60), dict(target="Sequences", seconds=60), dict(target="Holders", seconds=60)],
   rule="Random histories over tables, sets, queues, arrays, vectors, functions, optionals, references, guards and parsers whose hash functions, orders, predicates, targets, allocators, option types and elements call out; each such call may run a whole random history of another kind on other objects, up to three deep, or look into the table that is being searched. Every history is compared with its own model. Non-trivial: at least one history ran to its end inside a call that the library made.",
   assumptions=[A, T, "user code that the library calls does not change the object that calls it"]),
 "C39": dict(headers=sorted("amtl/" + h for h in (
                 "am-hashtable.h am-hashmap.h am-hashset.h am-priority-queue.h am-inlinelist.h am-fixedarray.h am-vector.h am-deque.h am-string.h "
                 "experimental/am-argparser.h").split()),
   repo_sources=["amtl/experimental/am-argparser.cpp"], configs=["release"], scale=6, scale_thorough=5,
   flags=["-fsanitize-coverage=trace-pc", "-fno-builtin"],
   libs=["-static-libstdc++", "-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset memcmp strstr strlen vsnprintf".split())],
   rule="The same scene at two sizes, 16 or 64 times apart: tables with six kinds of key in four layouts, queues in five orders, lists, arrays, vectors, deques, splitting, joining, formatting, copying, hashing, parsing. Work is the basic blocks executed inside the calls plus what the C string functions go over; no clock is read. Non-trivial: the larger run took at least 2000 steps.",
   assumptions=[A, "a factor of 3 (10 where a hash function has a say) between the growth measured and the growth promised"]),
}
