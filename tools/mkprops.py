#!/usr/bin/env python3
"""Generates /verif/properties.jsonl from the compact table below."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": qt},
              "why_tests_cant": why, "anchors": a})

I, H, F, S, C = "inputs", "histories", "fault_sequences", "schedules", "configurations"
MC = "code/source/essentials/memory_custom.c"; MCH = "code/header/essentials/memory_custom.h"; MH = "code/header/essentials/memory.h"

# ---------------------------------------------------------------- memory
p("C01", "Arena blocks are aligned, inside the arena and disjoint",
  "Every block an arena allocator returns is aligned as requested, lies wholly inside the memory the arena was given and overlaps no block handed out since the arena was last emptied or rolled back to a snapshot; a request that does not fit yields a null pointer and leaves the arena usable. Ending a snapshot restores exactly the fill level at which it began.",
  [I, H], "all start addresses, arena sizes, request sizes, power-of-two alignments, and alloc/free/free-all/resize/snapshot histories",
  "The tests never use an arena with mixed alignments or near exhaustion; overlap appears only for particular (fill level, alignment, size) combinations.",
  [MC, MCH], [("arena allocator procedure", MC + ": zpl_arena_allocator_proc"), ("snapshots and sub-arenas", MCH + ": zpl_arena_snapshot_begin/_end, zpl_arena_init_sub")],
  [("total_allocated", "bytes consumed from physical_start", MCH)], ["return value of zpl_alloc_align on zpl_arena_allocator"])
p("C02", "Pool allocator never hands out a block twice while it is live",
  "A pool hands out each of its fixed-size blocks at most once until it is freed, every block lies inside the pool's memory and is large enough for the block size, and freeing a block (or everything) makes exactly those blocks available again. The pool's usage count equals block size times the number of live blocks.",
  [I, H], "all pool shapes (block count, block size, alignment) and all alloc/free/free-all histories",
  "The alloc_pool tests allocate from one pool shape in one order; reuse after out-of-order frees and after free-all is not reached.",
  [MC, MCH], [("intrusive free list", MC + ": zpl_pool_init_align, zpl_pool_allocator_proc")],
  [("free_list", "singly linked list of free blocks threaded through the blocks", MCH)])
p("C03", "Stack and scratch allocators stay inside their memory and unwind exactly",
  "Blocks from the stack allocator and the scratch ring allocator are aligned, lie inside the backing memory, leave room for their bookkeeping header and never overlap a live block. Freeing the most recent stack block restores the exact previous fill level; freeing scratch blocks releases exactly the space of the oldest contiguous freed blocks; growing a stack records its real new size.",
  [I, H], "all sizes, power-of-two alignments and LIFO (stack) or arbitrary (scratch) free orders",
  "The repository has no test for either allocator.",
  [MC, MCH], [("stack allocator", MC + ": zpl_stack_allocator_proc"), ("scratch allocator", MC + ": zpl_scratch_allocator_proc")])
p("C04", "Heap blocks honour alignment, zeroing and balanced usage statistics",
  "A block obtained from the heap allocator is aligned as requested and at least as large as requested, is zero-filled when the clear-to-zero flag is set, and freeing it (or freeing null) is always valid. With heap analysis enabled, reported used bytes and allocation count equal the sum over live blocks after any history, including failed requests.",
  [I, H, F, C], "all sizes and alignments, with and without heap analysis, and any sequence of alloc/resize/free including allocation failure",
  "Tests run with one configuration, default alignment, and never see a failing malloc.",
  [MC, MCH], [("heap allocator procedure", MC + ": zpl_heap_allocator_proc")],
  [("heap stats", "used bytes / live block count", MC)])
p("C05", "Resizing a block preserves its contents",
  "Resizing a block through any allocator keeps the first min(old size, new size) bytes intact, gives back the same block when the size is unchanged, releases the block when the new size is zero, allocates a fresh one when there was none, and on failure returns null leaving the old block untouched.",
  [I, F], "all old/new sizes, contents and allocator outcomes",
  "Tests grow containers a handful of times with a heap that never fails.",
  [MCH], [("default resize", MCH + ": zpl_default_resize_align")])
p("C06", "Memory primitives touch exactly the bytes they are given",
  "The copy, move, set, zero, compare, swap and byte-search primitives read and write no byte outside the given length for any length and pointer alignment (overlap included for move), and produce the result of the corresponding C standard operation. The search primitives return the first (or last) matching byte inside the range or null.",
  [I], "all lengths, alignments, overlaps and contents",
  "Tests use a few aligned buffers of fixed size; tail handling depends on length and alignment.",
  [MH, "code/source/essentials/memory.c"], [("zpl_memmove, zpl_memset, zpl_memcompare", MH), ("zpl_memswap, zpl_memchr, zpl_memrchr, zpl_memcopy", "code/source/essentials/memory.c")])
p("C07", "A failed allocation is reported, never dereferenced",
  "When an allocator returns null, every library operation that asked it for memory either reports failure or leaves its object unchanged and usable; no operation dereferences the missing block, copies into it, or loses the old block it was meant to replace.",
  [F, I], "every allocation request made by any library operation, failing or not",
  "The tests always run on a heap with memory to spare.",
  ["code/header", "code/source"], [("allocation call sites", "every zpl_alloc*/zpl_resize* call site")])

# ---------------------------------------------------------------- collections
COL = "code/header/essentials/collections/"
p("C08", "Dynamic arrays keep count within capacity and preserve element order",
  "After any sequence of append, insert, pop, remove, clear, resize, reserve and fill operations a dynamic array holds exactly the elements a list model would hold, in order, its count never exceeds its capacity, and no element access or growth step touches memory outside the current block.",
  [I, H], "all element values, indices in range, counts and capacities",
  "Tests append a few dozen elements in one order; insertion and growth at every (count, capacity, index) is not reached.",
  [COL + "array.h"], [("zpl_array_* macros, zpl__array_set_capacity, zpl__array_append_at", COL + "array.h")],
  [("array header", "count / capacity / elem_size before the data", COL + "array.h")])
p("C09", "Buffers and ring buffers are bounded FIFO containers",
  "A ring buffer returns elements in the order they were appended, overwriting the oldest ones only once it is full, and its indices always stay inside its storage. Buffer append, insert-many, copy and pop keep the count equal to the number of stored elements and write only inside its capacity.",
  [I, H], "all capacities, element values and append/read/clear histories",
  "Tests run one fixed-size example; wrap-around positions other than the sampled ones are not reached.",
  [COL + "ring.h", COL + "buffer.h"], [("ring macros", COL + "ring.h"), ("buffer macros", COL + "buffer.h")])
p("C10", "A hash table behaves as a map under any operation history",
  "After any sequence of set, remove, clear, rehash, grow and map operations, looking up a key returns the last value set for it and not removed since, and null otherwise, whatever the hash collisions. No slot index leaves the table, and every live entry stays reachable from its bucket.",
  [I, H], "all 64-bit keys (including colliding ones), values and operation histories",
  "The table tests use a few keys and one order of removals; chains after removal depend on which entry of which chain is removed.",
  [COL + "hashtable.h"], [("ZPL_TABLE_DEFINE generated functions", COL + "hashtable.h")],
  [("hashes / entries", "bucket heads and entry chains", COL + "hashtable.h")])
p("C11", "Linked lists stay doubly linked",
  "Inserting into or removing from a linked list leaves every remaining node with consistent neighbours: whenever one node's successor is another, the latter's predecessor is the former, and traversal forwards and backwards visits exactly the nodes that were inserted and not removed.",
  [H], "all insert/remove positions (head, middle, tail, single node)",
  "The list has no unit test.", [COL + "list.h"], [("zpl_list_add, zpl_list_remove", COL + "list.h")])

# ---------------------------------------------------------------- strings
SH, SC = "code/header/core/string.h", "code/source/core/string.c"
p("C12", "C-string routines stay in bounds and terminate what they write",
  "Given valid NUL-terminated inputs and a destination of the documented size, the string copy, concatenate, token, trim, skip, reverse, case-change, prefix/suffix and length routines never read past a terminator or the given length, never write past the destination, and leave the destination NUL-terminated (the fixed-length copy pads as strncpy does). Their results agree with the C standard library's routine of the same name.",
  [I], "all string contents and lengths, all destination sizes",
  "The string module has no unit tests of its own.",
  [SH, SC], [("zpl_str* inline helpers", SH)])
p("C13", "String comparisons order by byte value",
  "String and memory comparisons return zero exactly when the compared ranges are equal, and otherwise a sign given by the first differing byte, never by addresses or by bytes past the end. Equality of library strings depends on their length and bytes only.",
  [I], "all pairs of strings and all length limits", "Comparisons are used only indirectly by the tests, on equal or trivially different strings.",
  [SH, "code/source/core/stringlib.c"], [("zpl_strcmp, zpl_strncmp", SH), ("zpl_string_are_equal", "code/source/core/stringlib.c")])
p("C14", "Library strings keep length, capacity and terminator consistent",
  "After any sequence of make, append, set, trim, clear, duplicate, join and reserve operations, a library string's recorded length equals the number of characters it holds, the length never exceeds its capacity, the byte after the last character is NUL, and the characters are those the operations denote. Growth never writes outside the allocated block.",
  [I, H], "all contents, lengths, capacities and operation histories", "String growth is sampled only through the JSON and print tests.",
  ["code/source/core/stringlib.c", "code/header/core/stringlib.h"], [("string header and growth", "code/source/core/stringlib.c: zpl_string_make_space_for, zpl_string_append_length")],
  [("zpl_string_header", "length/capacity/allocator before the characters", "code/header/core/stringlib.h")])
p("C15", "Number/text conversions are exact and bounded",
  "Formatting any 64-bit integer in any supported base writes a NUL-terminated text whose digits denote that value, and parsing a text reads the longest valid prefix, reports where it stopped and never reads past the terminator. Digit helpers map every digit and hex digit to its value and back.",
  [I], "all 64-bit values, bases and texts", "Tests touch a few small decimal values; extremes and other bases are not reached.",
  [SC, SH], [("zpl_i64_to_str, zpl_u64_to_str, zpl_str_to_u64, zpl_str_to_i64, zpl_str_to_f64", SC), ("zpl_hex_digit_to_int, zpl_char_to_hex_digit", SH)])
p("C16", "UTF-8 decoding and encoding follow the standard and stay in bounds",
  "Encoding any rune yields the standard UTF-8 sequence (replacement character for surrogates and out-of-range values); decoding yields the encoded rune and its length for every well-formed sequence and the invalid-rune result for every malformed, overlong or truncated one. Neither direction reads past the given length or writes past its buffer, including the UCS-2 conversions.",
  [I], "all byte sequences and all runes", "The only tests pass a few well-formed characters.",
  [SC], [("zpl_utf8_decode, zpl_utf8_encode_rune, zpl_utf8_to_ucs2, zpl_ucs2_to_utf8", SC)])
p("C17", "Character classification matches ASCII for every byte",
  "The character predicates and case conversions give the ASCII answer for every possible char value, including negative ones, and case conversion changes nothing but letters.",
  [I], "all 256 char values", "Tests classify a handful of characters, if any.", [SH], [("zpl_char_* predicates", SH)])

# ---------------------------------------------------------------- print
PR = "code/source/core/print.c"
p("C18", "Formatted printing never writes past its buffer",
  "Printing into a buffer of n bytes with any supported directive, flag, width, precision and argument writes at most n bytes, always NUL-terminates when n is positive, and returns a length that accounts for what was written. Writing to a file or growing string passes exactly the formatted bytes on, and reports failure instead of using a bogus length.",
  [I], "all buffer sizes, formats and arguments", "The print tests use buffers that are always large enough.",
  [PR], [("zpl_snprintf_va and its helpers", PR), ("zpl_fprintf_va, zpl_asprintf_va", PR)])
p("C19", "Caller data is never used as a format string",
  "Every call inside the library to one of its formatted-output functions, or to a system one, passes a constant format whose directives match the number and types of the arguments; text that comes from a caller or a parsed document is only ever an argument.",
  [I], "every formatted-output call in the library", "A percent sign in the data is needed to expose it; no test has one in the affected positions.",
  ["code/source", "code/header"], [("formatted-output call sites", "code/source/parsers, code/source/opts.c, code/source/core")])

# ---------------------------------------------------------------- files
FS, FC, FM, TAR = "code/source/core/file_stream.c", "code/source/core/file.c", "code/source/core/file_misc.c", "code/source/core/file_tar.c"
p("C20", "Memory streams read and write only inside their buffer",
  "A memory-backed file never reads or writes outside its buffer for any offset and size: reads stop at the end of the data, writes grow a growable stream and are refused or shortened on a read-only or fixed one, and seeking never leaves an unusable position. What was written at an offset is read back there.",
  [I, H, F], "all offsets, sizes, seek origins, stream flags and allocation outcomes", "Stream tests use small in-range reads and writes only.",
  [FS], [("memory stream operations", FS + ": zpl__memory_file_read/_write/_seek")],
  [("buf/cap/cursor", "stream storage and position", FS)])
p("C21", "File operations report failure and success truthfully",
  "A file operation reports success exactly when every system call it depends on succeeded, reports an error otherwise, and opens files with the access, create, truncate and append behaviour its mode names. Byte counts reported to the caller are the counts the system reported, and a path's kind (folder or not) is the one the system reports.",
  [F, I], "all outcomes of every system call, all open modes", "On-disk file operations have no unit tests and the test machine's calls do not fail.",
  [FC, FM, "code/header/core/file.h"], [("default file operations and open modes", FC), ("file system helpers", FM)])
p("C22", "System resources are released on every path",
  "Every descriptor, directory handle, stream, address list, socket, process pipe, thread attribute and argument list the library acquires inside an operation is either released before that operation returns or handed to the caller or the owning object, on every path including every error path; nothing is released twice or used after release.",
  [F, I], "every path through every function that acquires a system resource", "Leaks and double closes on error paths are invisible to tests that only take success paths.",
  [FC, FM, "code/source/socket.c", "code/source/threading", "code/source/core/print.c", "code/source/opts.c"],
  [("open/opendir/tmpfile/getaddrinfo/socket/popen/pthread_attr_init/va_start sites", "code/source")])
p("C23", "Temporary heap blocks are freed on every path",
  "Memory a library operation allocates for its own use is freed before it returns, and memory allocated for a result is handed to the caller or freed, on every path including parse errors and write failures; no block is freed twice or read after it was freed.",
  [I, F], "every path through every operation that allocates", "The alloc statistics are checked only on a few successful runs.",
  ["code/source", "code/header"], [("allocation/free pairs", "json.c, csv.c, uri.c, opts.c, file.c, file_misc.c, hashing.c, regex.c, file_tar.c")])
p("C24", "Tar writer and reader agree and extraction stays inside its destination",
  "Every header the tar writer emits is a valid tar (v7) header block whose checksum, size, type and full name the tar reader recovers, file bodies are padded to 512-byte blocks by both sides, and truncated or corrupt archives yield an error. Extracting an archive never creates anything outside the destination, whatever the entry names.",
  [I, F], "all entry names, sizes and archive contents", "The repository has no tar test.",
  [TAR, "code/header/core/file_tar.h"], [("zpl_tar_pack, zpl_tar_unpack, zpl_tar_default_unpack_file", TAR)])
p("C25", "Virtual memory operations keep exact ranges",
  "Trimming a mapping releases exactly the pages before the requested offset and after the requested end and returns the remaining range; freeing and purging act on exactly the given range and report success exactly when the system did; a failed reservation is reported as an empty range.",
  [I, F], "all sizes, offsets and system outcomes", "No test calls the virtual memory functions.",
  ["code/source/core/memory_virtual.c"], [("zpl_vm_alloc, zpl_vm_trim, zpl_vm_free, zpl_vm_purge", "code/source/core/memory_virtual.c")])
p("C26", "Path helpers return positions inside the path",
  "Base-name, extension, absolute, relative and root queries return a pointer into the given path (or the documented fallback) and answer as the path's text demands for every path, including empty ones and ones without separators or dots.",
  [I], "all path texts", "No test passes an unusual path.", ["code/header/core/file_misc.h"], [("zpl_path_* inline helpers", "code/header/core/file_misc.h")])

# ---------------------------------------------------------------- parsers
J, CS, U, A = "code/source/parsers/json.c", "code/source/parsers/csv.c", "code/source/parsers/uri.c", "code/source/adt.c"
p("C27", "JSON parsing never reads or writes outside the document",
  "For every NUL-terminated text, well-formed or not, the JSON parser terminates having read nothing past the terminator and written only inside the text and the blocks it allocated, and freeing the resulting tree is valid.",
  [I], "all texts, including truncated and malformed ones", "Tests parse a score of documents, nearly all well-formed.",
  [J, A], [("recursive-descent parser", J)])
p("C28", "Malformed JSON is rejected and every error reaches the caller",
  "A document with an unterminated string, object, array or comment, a missing value, name or assignment, or an unknown literal makes the JSON parser return an error code, wherever in the nesting it occurs; no nested failure is turned into success. Well-formed documents yield the node types, names and counts they spell.",
  [I], "all texts and nesting depths", "Tests cover a few specific malformed inputs at the top level.",
  [J], [("error returns of the nested parse functions", J)])
p("C29", "CSV parsing stays inside its text and keeps the table rectangular",
  "For every NUL-terminated text and delimiter the CSV parser reads nothing past the terminator, reports malformed quoting as an error, and builds columns whose cells are the fields of the text; writing the table out visits only cells that exist.",
  [I], "all texts, delimiters and header settings", "Tests use a few rectangular tables.", [CS], [("zpl_csv_parse_delimiter, zpl_csv_write_delimiter", CS)])
p("C30", "URI parsing stays inside its text and decodes escapes safely",
  "For every NUL-terminated text the URI parser reads nothing past the terminator, decodes only complete percent escapes, writes only inside its own storage, and exposes the parts exactly as the text spells them.",
  [I], "all texts including truncated escapes", "Tests parse a few complete URIs.", [U], [("zpl_uri_parse and zpl__uri_* helpers", U)])
p("C31", "Document trees keep parent and child links consistent",
  "After any sequence of node append, insert, remove, move, swap and set operations each node's parent is the container that holds it, indices and lookups refer to live nodes only, and moving a node leaves every other node's value intact.",
  [H, I], "all tree shapes and edit histories", "The ADT tests edit one small tree; growth reallocations at other sizes are not reached.",
  [A], [("zpl_adt_* node operations", A)], [("parent", "back pointer stored in every node", "code/header/adt.h")])
p("C32", "Parsed numbers in documents are exact and bounded",
  "Parsing a number of any length from a document never writes outside its internal buffers, consumes exactly the number's text, and classifies integers, reals and their sign, radix and exponent as spelled.",
  [I], "all number texts", "Tests use short numbers.", [A], [("zpl_adt_parse_number, zpl_adt_str_to_number", A)])
p("C33", "Command-line parsing is bounded and reports every bad argument",
  "For every argument vector the option parser reads only the given arguments up to their terminators, assigns each option the type-correct value or records an error, fills positionals in order, and printing help or errors visits only registered options.",
  [I], "all argument vectors and option sets", "The option parser has no test.", ["code/source/opts.c"], [("zpl_opts_compile and helpers", "code/source/opts.c")])
p("C34", "Regex compilation and matching stay in bounds and propagate errors",
  "Compiling any pattern either yields a program whose every operand the matcher interprets as the compiler wrote it, or an error, wherever in the nesting the fault lies; it never writes outside its buffer. Matching any text never reads outside the text or the program and reports captures that lie inside the text.",
  [I], "all patterns, texts and buffer sizes", "The regex module has no test.", ["code/source/regex.c"], [("zpl__re_* compiler and matcher", "code/source/regex.c")])

# ---------------------------------------------------------------- hashing
HS = "code/source/hashing.c"
p("C35", "Checksums use the standard algorithms for every input",
  "Adler-32, CRC-32, CRC-64, the FNV hashes and the two MurmurHashes compute the standard function of exactly the given bytes: every table entry is the one its polynomial defines, every byte enters once in order, and no byte outside the range is read.",
  [I], "all byte strings and lengths", "Tests hash one string per function; a wrong table entry shows only for inputs that index it.",
  [HS], [("tables and loops", HS)])
p("C36", "Base64 encoding and decoding are inverse and bounded",
  "Encoding any byte string yields standard padded base64, decoding it yields the original bytes, and decoding arbitrary text reads only the given text, writes only the block it allocated and either returns decoded bytes or reports failure without leaking.",
  [I, F], "all byte strings and texts", "Tests round-trip a few strings.", [HS], [("zpl_base64_encode, zpl_base64_decode", HS)])

# ---------------------------------------------------------------- threading
p("C37", "Atomic operations are atomic and mean what they say",
  "Every atomic read-modify-write operation performs one indivisible update of the addressed cell with the documented operation, returns the value held before, compares with the expected value and stores the desired one (in that order), for all three operand kinds. Loads and stores are single accesses of full width.",
  [S, I], "all interleavings, operand values and the three cell types", "Races need an unlucky interleaving on specific hardware; there is no threading test.",
  ["code/source/threading/atomic.c"], [("lock-prefixed instructions", "code/source/threading/atomic.c")])
p("C38", "Spin locks, mutexes and semaphores exclude and count correctly",
  "A spin lock is acquired only by moving it from free to held and released only by its unlock; a try operation reports exactly whether it acquired. Mutex and semaphore operations act on the underlying primitive exactly once, with its result reported with the right sense.",
  [S], "all interleavings of lock, try-lock and unlock", "No test takes a lock from two threads.",
  ["code/source/threading/atomic.c", "code/source/threading/mutex.c", "code/source/threading/sem.c"], [("spin_lock / try_acquire_lock / unlock", "code/source/threading/atomic.c")])
p("C39", "Barrier operations release every lock they take",
  "The synchronisation barrier changes its counters only while holding its mutexes, releases each mutex it takes exactly once on every path, acquires the two mutexes in one fixed order, and wakes exactly the waiters its target count calls for.",
  [S, H], "all interleavings of reach, wait, release and set-target", "No test uses the barrier.",
  ["code/source/threading/sync.c"], [("zpl_sync_* operations", "code/source/threading/sync.c")])
p("C40", "Jobs run exactly once and workers shut down",
  "Every enqueued job is handed to exactly one worker and executed once (jobs still waiting when the system is freed are dropped), jobs of one priority in the order they were enqueued; a worker's job slot is rewritten only when the worker is idle, a full queue refuses further jobs and takes them again once a slot is free, and freeing the system always ends every worker and releases what initialisation acquired.",
  [S, H], "all interleavings of producer, workers and shutdown", "No test starts the job system.",
  ["code/source/jobs.c"], [("worker status protocol and priority queues", "code/source/jobs.c")],
  [("worker status", "READY/WAITING/BUSY/TERM hand-off", "code/header/jobs.h")])
p("C41", "Thread lifecycle calls are paired",
  "Starting a thread publishes its state before the new thread can run, runs the procedure exactly once with the caller's data, and reports the creation result; joining waits at most once per start, a thread that could not be created is never joined, and destroying a running thread joins it and releases its resources exactly once.",
  [S, F], "all start/join/destroy orders and creation outcomes", "No test starts a thread.",
  ["code/source/threading/thread.c"], [("zpl__thread_run, zpl_thread_start_with_stack, zpl_thread_join", "code/source/threading/thread.c")])

# ---------------------------------------------------------------- the rest
p("C42", "Socket calls pass valid addresses and lengths",
  "Every socket operation passes the system an address buffer together with the true size of that buffer (by pointer where the system updates it), never a truncated or fabricated one, and reports the system's result unchanged, with failure as a negative value (non-zero where documented). A failed creation leaves no descriptor open, and waiting never marks a descriptor outside the wait set.",
  [I, F], "all arguments and system outcomes", "The socket module has no test.", ["code/source/socket.c"], [("zpl_socket_* wrappers", "code/source/socket.c")])
p("C43", "Matrix, vector and quaternion operations compute their algebraic definition",
  "Over the reals, every vector, matrix and quaternion operation (construction, sums, scalings, products, dot, cross, length, normalisation, reflection, refraction, transpose, determinant, inverse, transforms, projections, views, quaternion products, inverses, rotations, axis and angle, conversions, interpolation, and the C++ operators) equals its textbook expression in the components for every input, and stores every component of the result and nothing else. In-place variants agree with their three-operand forms.",
  [I], "all component values", "The math module has no test; a swapped index shows only for non-symmetric inputs.",
  ["code/source/math.c", "code/header/math.h"], [("zpl_vec*, zpl_mat*, zpl_quat* functions", "code/source/math.c")])
p("C44", "Sorting, searching, shuffling and reversing permute in bounds",
  "Sort, radix sort, shuffle and reverse leave the array a permutation of its former elements, touching nothing outside it; sort and radix sort leave it ordered in the caller's array, reverse leaves it mirrored, and binary search finds an element equal to the key exactly when one exists. Comparison helpers order by value.",
  [I], "all arrays, counts and element sizes", "No test sorts anything but through incidental use.",
  ["code/source/core/sort.c", "code/header/core/sort.h"], [("zpl_sort, zpl_radix_sort_*, zpl_shuffle, zpl_reverse, zpl_binary_search", "code/source/core/sort.c")])
p("C45", "Bit and byte-order helpers compute their definition for every value",
  "Byte swapping reverses the bytes of every 16, 32 and 64-bit value, population count counts every bit, single-bit get/set/clear/flip act on exactly the named bit of the full width, and alignment helpers round up to the next multiple.",
  [I], "all values and bit indices", "Tests use a few constants.", ["code/header/core/misc.h", "code/header/essentials/helpers.h", MH], [("zpl_endian_swap*, zpl_count_set_bits, zpl_bit_*, zpl_align_forward*", "code/header")])
p("C46", "Random ranges stay within their bounds",
  "A ranged random request returns a value between its inclusive bounds for every generator state, and generating advances the generator state deterministically from its seed.",
  [I, H], "all generator states and bounds", "Tests cannot sample the generator's state space.", ["code/source/core/random.c"], [("zpl_random_range_*", "code/source/core/random.c")])
p("C47", "Every declared function exists in every supported configuration",
  "In every distribution and module selection, as C and as C++, the header compiles and links, and every function it declares is defined exactly once in the implementation with the declared type.",
  [C], "all module toggles and distributions, C and C++", "Tests build one configuration.", ["code/zpl.h"], [("module toggles", "code/zpl.h")])
p("C48", "File time, directory and whole-file helpers return what they read",
  "Reading a whole file returns exactly its bytes (terminated when asked), reading lines or listing a directory (with its subdirectories when asked) returns every entry once as an owned string, and nothing is read from or written beyond the buffers sized for it.",
  [I, F], "all file sizes, contents, directory entries and names", "No test reads a file from disk.", [FC, FM], [("zpl_file_read_contents, zpl_file_read_lines, zpl_path_dirlist, zpl_dirinfo_*", FC)])
p("C50", "Numerical functions are accurate to their documented precision",
  "Transcendental, interpolation and projection helpers return values within a small relative error of the exact mathematical result over their whole domain.",
  [I], "all finite inputs", "Sampling cannot bound floating-point error.", ["code/source/math.c"], [("zpl_sin, zpl_exp, zpl_log, projections", "code/source/math.c")])
p("C51", "Child processes inherit the requested environment and are reaped",
  "Starting a child process passes exactly the requested arguments, environment and pipes, joining returns its exit code, and destroying releases its handles.",
  [F, H], "all argument lists, options and process outcomes", "No test starts a process; only a Windows implementation exists.", ["code/source/process.c"], [("zpl_pr_*", "code/source/process.c")])

p("C52", "Clocks never run backwards and a sleep asks for exactly its duration",
  "The relative clock counts whole milliseconds from its first use and never decreases, wall-clock readings are the same instant in milliseconds of the documented epoch (and in local time, shifted by the zone), second-valued readings are the millisecond ones divided by a thousand, and sleeping requests exactly the given number of milliseconds with a valid nanosecond part.",
  [I, H], "all clock readings and durations", "The time tests read the real clock once.", ["code/source/core/time.c"], [("zpl_time_rel_ms, zpl_time_utc_ms, zpl_sleep_ms", "code/source/core/time.c")])
p("C53", "Environment and command helpers return the whole text, bounded and terminated",
  "Reading an environment variable or a command's output returns exactly the text (as much as the given buffer holds), always terminated and never beyond the buffer; every pipe opened is closed, and a failed allocation or pipe is reported without leaking.",
  [I, F], "all outputs, buffer sizes and failures", "No test runs a command or reads a variable.", ["code/source/core/misc.c"], [("zpl_get_env*, zpl_system_command*", "code/source/core/misc.c")])

p("C54", "Geometry helpers agree with their point-set definition",
  "Over the reals, rectangle, box, plane and frustum helpers agree with the sets of points they stand for: a containment or intersection test answers true exactly when the point belongs to the set or the sets have a common interior point (a box includes its lower faces and excludes its upper ones), cutting, contracting, expanding and joining give exactly the boxes the definition names, conversions between corner and size forms are inverse, and the planes of a frustum bound exactly the points its matrix maps into the clip volume.",
  [I], "all coordinates, including degenerate and negative sizes", "The math module has no test; comparison and boundary mistakes show only on particular arrangements.",
  ["code/source/math.c", "code/header/math.h"], [("zpl_rect*, zpl_aabb*, zpl_plane_*, zpl_frustum_*", "code/source/math.c")])
p("C55", "Scalar mathematics returns the defined value",
  "Over the reals, elementary functions return the function they are named after, conversions between angle units invert each other, floor, ceil, round and truncate return the defined integer for every value (including integers, negatives and halves, and values beyond the integer type unchanged), remainder and mod have the sign and range of their definition, the difference of angles lies within half a turn, interpolation curves agree with their polynomials at every parameter, and minimum, maximum, clamp, sign and between agree with the order.",
  [I], "all finite inputs", "No test calls the scalar functions; off-by-one rounding shows only on integers, negatives or halves.",
  ["code/source/math.c", "code/header/math.h"], [("zpl_floor, zpl_ceil, zpl_round, zpl_mod, zpl_angle_diff, zpl_clamp", "code/source/math.c")])

p("C56", "Formatted text spells its arguments",
  "Every integer directive with every length modifier prints the exact value of its argument in the directive's base and the modifier's type, strings and characters print their text (cut at the precision), width and the minus flag pad on the side they name and never cut, arguments are consumed in order and in their own size, a fraction prints the digits asked for, and all printing functions give the same text.",
  [I, S], "all arguments, directives, widths and precisions", "The print tests format a dozen fixed lines.", ["code/source/core/print.c", "code/source/core/string.c"], [("zpl_snprintf_va, zpl__print_i64/_u64/_f64/_string", "code/source/core/print.c")])
p("C57", "A written document reads back as the same tree",
  "Writing a document tree as JSON (indented or compact), CSV or URI text and parsing that text yields a tree of the same types, names, values, order and (for JSON) name and assignment styles, for parsed documents and for trees built through the interface (escapes inside strings stay as spelled); writing changes nothing in the tree, and a destination that refuses a write at any point, or a failed allocation, makes the writer report failure.",
  [I, F], "all trees and every failing write", "Tests write one document and never parse it back; no test's destination fails.", ["code/source/parsers/json.c", "code/source/parsers/csv.c", "code/source/parsers/uri.c", "code/source/adt.c"], [("zpl_json_write, zpl_csv_write_delimiter, zpl_uri_write", "code/source/parsers"), ("zpl_adt_print_number, zpl_adt_print_string", "code/source/adt.c")])
p("C58", "System queries and fences pass the system's answer and order on",
  "The full, store and load fences execute an instruction enforcing the order they name on every path, the processor query reports the system's core count (at least one core, and whether the number is known), a dynamic library handle and the procedures found in it are those the loader returned, unloading hands back that handle once, and exiting passes its code to the system.",
  [I, C], "all answers of the system", "No test calls these functions.", ["code/source/threading/fence.c", "code/source/threading/affinity.c", "code/source/dll.c", "code/source/essentials/debug.c"], [("zpl_mfence, zpl_sfence, zpl_lfence", "code/source/threading/fence.c"), ("zpl_affinity_*", "code/source/threading/affinity.c"), ("zpl_dll_*", "code/source/dll.c")])
p("C59", "Operations on distinct objects share no hidden mutable state",
  "Apart from the documented process-wide state (the standard files, the comparison offsets, the clock's starting point, the two UCS-2 conversion buffers, heap statistics) no library operation keeps mutable state between calls that another thread could see: buffers kept by the formatted output functions belong to the calling thread, a counter shared by threads is updated atomically, constant tables are never written, and no C library function with hidden state is called.",
  [S, H], "all interleavings of calls on distinct objects", "The tests are single-threaded.", ["code/source", "code/header"], [("static and thread-local variables", "code/source/core/print.c, code/source/core/random.c, code/source/core/stringlib.c, code/source/core/file.c, code/source/core/sort.c")])
p("C60", "Data passed as read-only is never modified",
  "No library function writes to the object a pointer-to-const parameter points to, neither directly nor through a pointer derived from it and handed to another function, and no function writes to an object in constant storage.",
  [I, C], "all calls of all functions", "A test's literals and buffers rarely sit in memory where a stray write would be noticed.", ["code/source", "code/header"], [("functions with pointer-to-const parameters", "code/header, code/source")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    ids = [x["id"] for x in P]; assert len(ids) == len(set(ids))
    for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
