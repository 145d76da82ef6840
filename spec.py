"""Which harness decides which property, and how it is described in MANIFEST.json and the evidence."""
SEQ = "explicit enumeration of operation histories on the real code against a reference model (stateless model checking)"
INP = "bounded exhaustive enumeration of inputs on the real code against a reference model (stateless model checking)"
ENVM = "exhaustive enumeration of environment answers (system-call results) on the real code (stateless model checking)"
FLT = "exhaustive fault-point enumeration on the real code under a controlled allocator (stateless model checking)"
A_ALLOC = "allocations succeed (failures are C08/C09)"
A_ASAN = "memory errors are those AddressSanitizer sees (heap, stack, globals, poisoned surroundings of exact-size buffers)"
CHECKS = {}
def check(id, parts, technique, level, note, rule, assumptions=()):
    CHECKS[id] = dict(parts=parts, technique=technique, level=level, note=note, rule=rule, assumptions=list(assumptions))

check("C01", [dict(src=["c01_sblist.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=1"])], SEQ, "model_checking",
  "All histories within the stated bounds (starting length, depth, positions, item size, block) were executed on the library and compared with an array after every step; nothing is claimed beyond the bounds.",
  "a state is the (item size, sequence of item identities) of the list; non-trivial: at least one operation applied and all items compared",
  [A_ALLOC, A_ASAN])
check("C02", [dict(src=["c02_sorted.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=2"])], SEQ, "model_checking",
  "All sorted lists, keys and insertion histories within the bounds were run on the real functions; comparison callbacks are monitored on every call.",
  "a state is (variant, item size, key sequence of the list); each reached by real insertions and compared item by item", [A_ALLOC, A_ASAN])
check("C03", [dict(src=["c03_typed.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=3"])], SEQ, "model_checking",
  "All histories within the bounds for 8 element types and 8 index-backed instantiations, compared with an array after every step; a list of more than 2^32 items at its critical positions.",
  "a state is (list type, sequence of element identities)", [A_ALLOC, A_ASAN, "positions are valid, as the header requires"])
check("C04", [dict(src=["c04_tlist.c"])], SEQ, "model_checking",
  "All histories, insertion and deletion orders within the bounds, compared with an array at every index after every step.",
  "a state is (item size, sequence of item identities)", [A_ALLOC, A_ASAN])
check("C05", [dict(src=["c05_bmap.c"]), dict(src=["c05_bmap.c"], cflags=["-DBMAP_USE_TGILIST"], variant="asan")], SEQ, "model_checking",
  "All histories within the bounds for both value-list backends and four key/value type pairs, compared with an association array after every step.",
  "a state is (map type, sorted sequence of (key, value identity))", [A_ALLOC, A_ASAN])
check("C06", [dict(src=["c06_hbmap.c"]), dict(src=["c06_hbmap.c"], cflags=["-DBMAP_USE_TGILIST"])], SEQ, "model_checking",
  "All histories within the bounds for every assignment of keys to buckets, both value-list backends and both creation styles.",
  "a state is (map type, set of (key, value identity, hash))", [A_ALLOC, A_ASAN])
check("C07", [dict(src=["c07_hashlist.c"])], SEQ, "model_checking",
  "All addition/removal histories and bucket fill patterns within the bounds, both iterators run to the end in every state.",
  "a state is (bucket count, sequence of (hash, value identity), used buckets)", [A_ALLOC, A_ASAN])
check("C08", [dict(src=["c08_oom.c"]), dict(src=["c08_oom.c"], cflags=["-DBMAP_USE_TGILIST"])], FLT, "fault_enumeration",
  "Every allocation call in every enumerated history was made to fail once and from there on (up to two failures); contents, return values and heap balance checked after each operation.",
  "a case is one history with one placement of allocation failures; distinct = different (container contents, failures delivered, allocation calls made)", [A_ASAN, "failures are delivered through malloc/calloc/realloc/strdup/strndup"])
check("C10", [dict(src=["c10_slices.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=10"])], INP, "model_checking",
  "All strings, pairs, positions and counts within the bounds, on exact-size poisoned buffers, against direct definitions.",
  "a state is one distinct input (string, or haystack/needle pair, or argument tuple)", [A_ALLOC, A_ASAN])
check("C11", [dict(src=["c11_split.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=11"])], INP, "model_checking",
  "All sources, delimiters and replacements within the bounds against a leftmost-non-overlapping reference split; sources of more than 2^32 bytes.",
  "a state is one distinct (source, delimiter[, replacement]) or list", [A_ALLOC, A_ASAN, "the source buffer has a writable terminator byte, as the functions require"])
check("C14", [dict(src=["c14_fileparser.c"], wraps=["read", "lseek", "lseek64", "pread", "pread64"])], SEQ, "model_checking",
  "All file contents and operation sequences within the bounds were run on the real reader with real files (reads may be short at every call), against the file's lines.",
  "a state is (file content, offset, last result)", [A_ASAN, "the file does not change while it is read", "a failing read fails with EIO"])
check("C15", [dict(src=["c15_files.c"], wraps=["read", "write", "open", "stat"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=15"], wraps=["write"])], ENVM, "model_checking",
  "Every placement of up to 2 (3) deviating operating-system answers in every enumerated write, read and round trip, on real files with the result compared byte for byte.",
  "a state is (content, reported result, resulting file or list, kinds of failures delivered)", [A_ASAN, A_ALLOC, "deviations are delivered at open, stat, read and write; close does not fail"])
check("C09", [dict(src=["c09_stroom.c"], wraps=["glob"])], FLT, "fault_enumeration",
  "Every allocation made by each function on each enumerated input was made to fail once and from there on (up to two failures); result, inputs, heap balance and descriptors checked.",
  "a case is one call with one placement of allocation failures; distinct = different (function, input, failures delivered, allocation calls made)", [A_ASAN, "memory exhaustion inside glob() is represented by its documented answer GLOB_NOSPACE"])
check("C16", [dict(src=["c16_numbers.c"]), dict(src=["c16_numbers.c"], variant="O2", cflags=["-DFULL"], tier="thorough")], INP, "model_checking",
  "Quick: all values in the stated windows and all bases, flags and lengths, on exact-size poisoned buffers; thorough adds every one of the 2^32 values.",
  "a state is one distinct (number[, base, length, flags]) input", [A_ASAN, "the full sweep uses an uninstrumented -O2 build with canary bytes around the buffers"])
check("C17", [dict(src=["c17_format.c"], wraps=["write"])], INP, "model_checking",
  "All format strings and argument tuples within the bounds at every destination size, on exact-size poisoned buffers, against the C library's snprintf.",
  "a state is one distinct (format, arguments) compared at several destination sizes", [A_ASAN, A_ALLOC, "glibc snprintf is the reference", "varargs are passed in 8-byte slots (LP64 ABI)", "%p, and a precision with %c or %%, are outside the stated subset and only checked for memory safety"])
check("C12", [dict(src=["c12_ini.c"])], INP, "model_checking",
  "All files within the bounds, every section name, iteration of repeated sections to the end, every key from every start line, against a direct definition.",
  "a state is one distinct file content; every lookup on it is compared", [A_ALLOC, A_ASAN, "lines that carry text other than blanks after a matching header's bracket are not used"])
check("C13", [dict(src=["c13_opts.c"])], INP, "model_checking",
  "All argument vectors within the bounds, all names, against a direct definition; arguments and names in exact-size poisoned buffers.",
  "a state is one distinct argument vector", [A_ASAN, "names are non-empty and contain neither '=' nor a leading dash"])
check("C18", [dict(src=["c18_base64.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=18"])], INP, "model_checking",
  "All byte strings, texts and destination sizes within the bounds on exact-size poisoned buffers against a reference codec.",
  "a state is one distinct byte string or text", [A_ASAN, "texts whose unused bits before the padding are set may be decoded or refused"])
check("C19", [dict(src=["c19_conv.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=19"]), dict(src=["c19_conv.c"], variant="O2", cflags=["-DFULL"], tier="thorough")], INP, "model_checking",
  "All inputs within the stated bounds against direct definitions; thorough adds all 2^32 IPv4 addresses.",
  "a state is one distinct input", [A_ASAN, "a dotted quad has fields of 1 to 3 digits up to 255"])
check("C20", [dict(src=["c20_search.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=20"])], INP, "model_checking",
  "All texts and patterns within the bounds, in exact-size poisoned buffers, against direct definitions of leftmost match; texts of more than 2^32 characters.",
  "a state is one distinct (text, pattern) pair", [A_ASAN, "word boundaries are text start/end and the characters findword.c lists"])
check("C21", [dict(src=["c21_rc4.c"]), dict(src=["huge.c"], variant="O2", cflags=["-DHUGE=21"])], INP, "model_checking",
  "All keys, key lengths and message lengths within the bounds against an independent textbook implementation checked on published vectors.",
  "a state is one distinct (key, message length)", [A_ASAN])
check("C22", [dict(src=["c22_md5.c"]), dict(src=["c22_md5.c"], variant="O2", cflags=["-DLONG"])], INP, "model_checking",
  "All lengths, cuts, update/digest histories and context interleavings within the bounds against an independent implementation checked on the published vectors; long messages across 2^28..2^32 bytes at every length around the marks.",
  "a state is one distinct (message, way of feeding it)", [A_ASAN, "long messages run on an uninstrumented -O2 build"])
check("C23", [dict(src=["c23_sha512.c"]), dict(src=["c23_sha512.c"], variant="O2", cflags=["-DLONG"])], INP, "model_checking",
  "All lengths, permitted cuts and context interleavings within the bounds against an independent implementation checked on the published vectors; long messages across 2^28, 2^29 and 2^32 (thorough: 2^31) bytes at every length around the marks.",
  "a state is one distinct (message, way of feeding it)", [A_ASAN, "long messages run on an uninstrumented -O2 build"])
check("C24", [dict(src=["c24_crc.c"]), dict(src=["c24_crc.c"], variant="O2", cflags=["-DLONG"])], INP, "model_checking",
  "All messages, cuts, alignments and context interleavings within the bounds against the bit-by-bit definition.",
  "a state is one distinct (variant, message, way of feeding it)", [A_ASAN, "tables are initialised at least once before use, as documented"])
check("C25", [dict(src=["c25_normpath.c"])], INP, "model_checking",
  "All paths within the bounds and all shapes around the maximum path length, both functions, on exact-size poisoned buffers, against a component-wise definition.",
  "a state is one distinct path", [A_ASAN, "the in-place variant gets a zero-terminated path, as all stringptrs made by the library are", "a path longer than PATH_MAX whose normalized form fits may be refused or normalized by the in-place variant"])
check("C26", [dict(src=["c26_pieces.c"])], INP, "model_checking",
  "All pairs of paths and all names within the bounds, on exact-size poisoned buffers, against direct definitions.",
  "a state is one distinct (pair of paths) or name", [A_ASAN])
check("C27", [dict(src=["c27_filelist.c"])], INP, "model_checking",
  "All subsets of a set of entries, all flag sets, masks and directory spellings within the bounds on real directories, against fnmatch over the known entries.",
  "a state is one distinct (directory content, directory argument, mask, flags)", [A_ALLOC, A_ASAN, "C locale; masks contain no slash", "without FLF_INCLUDE_HIDDEN, requested '.' and '..' are listed as './' and '../' whatever the mask; with it they are entries like others"])
_POOLS = [(2,8),(2,6),(2,1),(2,3),(4,2),(4,8),(8,1),(8,6),(16,1),(16,3),(32,4),(64,5),(256,6),(1024,2),(2048,1),(128,1),(512,3),(4096,1),(2,300),(2,70000),(64,1),(64,8),(256,8),(32,2)]
check("C28", [dict(src=["c28_ssalloc.c"], lib=False, multi=[("c28_pool.c", ["-DCFG=%d" % i, "-DSSA_MAXELEM=%d" % n, "-DSSA_ELEMSIZE=%d" % e]) for i, (n, e) in enumerate(_POOLS)])],
  "explicit-state enumeration of all reachable pool states, executing the real code for every transition (explicit-state model checking of the implementation)", "model_checking",
  "All reachable states of small pools with all operations from each; hole patterns of pools up to 2048 elements; all bits of bit arrays to the bound.",
  "a state is (pool bytes with live blocks blanked, set of live blocks), a (pool, pair of freed blocks), or a (bit array, bit)", [A_ASAN, "pool sizes are powers of two, as the source requires", "foreign addresses are compared, not dereferenced"])
check("C29", [dict(src=["c29_guard.c"], variant="plain", lib=False, wraps=["mmap", "mprotect"])],
  "exhaustive enumeration of sizes, freeing orders and system-call failures on the real code (stateless model checking)", "model_checking",
  "Every size to the bound with every byte accessed and the mapped pages compared before and after; every freeing order; failure of every mapping call.",
  "a state is one distinct size, a (sizes, freeing order prefix), or a (size, failures)", ["PAGE_SIZE is the machine's page size (4096)", "mapped pages are what /proc/self/maps lists"])
check("C30", [dict(src=["c30_process.c"], helpers=["c30_child.c"], wraps=["pipe", "pipe2", "dup", "dup2", "dup3", "fork", "fcntl", "waitpid", "posix_spawn", "posix_spawnp", "posix_spawn_file_actions_init", "posix_spawn_file_actions_addclose", "posix_spawn_file_actions_adddup2"])],
  ENVM, "model_checking",
  "All orders of opening and closing, all subsets of closed standard descriptors and the failure of every call on the start path, with real child processes that report their own descriptors.",
  "a state is one distinct order, (failing call, closed descriptors, other child), limit or exit code", [A_ASAN, "children end normally (not by a signal)", "failures are delivered at pipe, dup, fork, fcntl(F_DUPFD) and posix_spawn*; closing does not fail"])
check("C31", [dict(src=["c31_mkdtemp.c"], wraps=["mkdir", "mkdirat", "rand"])], ENVM, "model_checking",
  "All sequences of directory-creation answers within the bounds against a stand-in that records each attempt; real collisions and permissions inside the scratch directory.",
  "a state is one distinct (lengths, attempts made, last answer)", [A_ASAN, "directories are created by mkdir or mkdirat; a collision is answered again if the same name is tried again"])
check("C32", [dict(src=["c32_time.c"], wraps=["nanosleep", "clock_nanosleep", "gettimeofday", "clock_gettime", "time"])], ENVM, "model_checking",
  "All interruption and error patterns within the bound on a virtual clock; all pairs of boundary clock values; dates over 137 years in 5 time zones.",
  "a state is one distinct (duration, sleep calls, error), pair of clock values, or date", [A_ASAN, "time is read and slept through nanosleep, clock_nanosleep, gettimeofday, clock_gettime and time", "strftime-style fields of the C library's localtime are the reference for the date"])
check("C33", [dict(src=["c33_logger.c"], wraps=["gettimeofday", "clock_gettime", "time", "write"])], INP, "model_checking",
  "All argument sequences within the bounds, captured on real descriptors; all other captured descriptors must stay empty.",
  "a state is one distinct (argument sequence) or call", [A_ASAN, "writes to a regular file are complete"])
check("C36", [dict(src=["c36_stdio.c", "c36_calls.c"], wraps=["write", "writev"]), dict(src=["c36_stdio.c", "c36_calls.c"], variant="O2", wraps=["write", "writev"])], SEQ, "model_checking",
  "All call sequences within the bounds, compiled the way a user of the header would compile them; every write is recorded and compared, per descriptor, with what C's own functions produce.",
  "a state is one distinct content of the four recorded descriptors, or a character", [A_ASAN])
check("C37", [dict(src=["c37_macros.c"], cflags=["-O0"])], INP, "model_checking",
  "All combinations of macro, argument form and small argument values, and all placements of loop macros, within the bounds; each compared with the same computation on plain values.",
  "a state is one assignment of values to the variables the argument expressions are made of", [A_ASAN, "arguments with side effects are only evaluated an unspecified number of times"])
check("C35", [dict(src=["c35_daemon.c"], variant="plain", wraps=["fork", "vfork"])], ENVM, "model_checking",
  "All subsets of previously open descriptors within several limits, in real processes whose surviving process reports its own descriptors and session; failure of fork.",
  "a state is one distinct (descriptor set, limit, session position, kinds of files)", ["descriptors at or above the limit cannot be closed portably and are not created", "/dev/null can be opened"])
_MEMW = "memcpy memmove mempcpy memset memcmp memchr memrchr strlen strnlen strcpy stpcpy strncpy strcat strncat strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strtok localtime gmtime localtime_r strftime asctime ctime vsnprintf snprintf vsprintf sprintf qsort bsearch read write pread stat fstat gettimeofday time clock_gettime glob open creat mkdir umask chdir fchdir".split()
check("C34", [dict(src=["c34_sched.c", "sched_rt.c"], variant="sched", multi=[("c34_ops.c", ["-fsanitize=thread", "-fno-builtin"])], wraps=_MEMW)],
  "stateless model checking of thread interleavings at memory-access granularity (partial-order reduction by dynamic footprints, preemption bounded where memory is shared)", "model_checking",
  "All ordered pairs of 48 groups of calls in two threads that take turns at instrumented memory accesses, each execution in a fresh process; the footprints show whether any access of one thread is visible to the other, and where one is, all schedules with up to 2 (3) preemptions are run. Every call from every callback.",
  "a state is one distinct schedule (pair of calls and switching points) or nesting", ["interleavings are sequentially consistent", "a call into the C library is one step; the C library's own functions are thread-safe", "the checksum tables are initialised before the threads start, as documented"])
