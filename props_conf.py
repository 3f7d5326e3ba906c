"""Which drivers decide which property, and how the evidence is described."""
def drv(name, *extra, **kw):
    return dict(driver=name, targets=[name, *extra], **kw)
SAN = {"MC_SAN": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:disable_coredump=1", "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}
TYPES = ("sha1", "ntlm", "sha1t64")
def san(driver, prop, only, *extra, **kw): # scenarios of another property, run with sanitizers
    return dict(driver=driver, targets=[driver, *extra], prop=prop, only="|".join(only), env=SAN, **kw)
def P(level, parts, technique, note, rule, assumptions=()):
    return dict(level=level, parts=parts, technique=technique, note=note, rule=rule, assumptions=list(assumptions))

DNL = drv("drv_dnl", "t/hibp-download")
T_ALL = ["t/hibp-" + x for x in ("convert", "topn", "sort", "dupes", "diff", "search")]
A_NET = ["libcurl and libevent are replaced by a stand-in with the same call/callback contract (src/dnl/net.cpp); the scenarios 'real network' repeat a part of the enumeration with the real libraries over loopback and require the same output, exit class and requests per range",
         "threads switch only at synchronisation operations, stream/file operations and (race mode) shared memory accesses reported by the compiler's instrumentation; memory is sequentially consistent, data races are reported instead of explored"]
A_SHIM = ["storage faults are injected at the libc boundary (read, readv, lseek, write, writev, fsync, rename, ftruncate ...) or by RLIMIT_FSIZE; a fault is one refused or shortened call"]
R_SCHED = "an execution is one complete run of the real program under one sequence of scheduling and environment decisions; the explorer visits each decision sequence once, so executions are distinct; non-trivial because every run is judged on exit status, output bytes and request log"

PROPS = {
"C01": P("exploration", [DNL],
    "stateless model checking of the real downloader: all completion orders, batchings, body cuts, line shapes and (bounded) thread interleavings under a controlled scheduler and a stand-in for libcurl/libevent; conformance runs against the real libraries",
    "Up to 4 (thorough 5) ranges with parallel 1..n+1 for orders, every single (and for short bodies double) cut of a body, all 8^3 shape combinations over three ranges, limit 1..20 x parallel 1..24 with four canonical orders, one run over all 2^20 ranges. Interleavings: at most 1 preemption together with 1 non-default order decision (thorough 3). Bodies far longer than today's (up to some 100 000 lines) in pieces of the size libcurl hands over; lines with count 0 and hashes that differ only in their last digits. Bodies are well-formed lines.",
    R_SCHED, A_NET),
"C02": P("fault_enumeration", [DNL],
    "exhaustive fault enumeration on the real downloader: every sequence of transfer failures within bounds, with orders and interleavings; conformance runs against the real libraries",
    "One transfer: all sequences of up to 6 failures over 4 (thorough 5) kinds and of up to 2 (thorough 3) over all 13 kinds; three transfers: all combinations of 0,1,4,5,6,7 failures with canonical orders and of 0,1 (thorough 0..2) with all orders; at most 1 preemption when interleaved. Failures are those libcurl reports (code, status, part of a body); real time is not modelled, a stall ends only if the program has set a limit that ends it.",
    R_SCHED, A_NET),
"C03": P("exploration", [DNL],
    "stateless model checking of thread interleavings of the real downloader under a controlled scheduler (preemption-bounded), with deadlock/livelock detection and vector-clock race detection on compiler-reported accesses",
    "One range: all interleavings with at most 2 (thorough 3) preemptions; two ranges: at most 1 (thorough 2), all completion orders and batchings; quiet, --debug and --progress. One spurious wake-up per execution is also enumerated. Accesses inside uninstrumented libraries (libstdc++ binary, fmt is header-only and instrumented) are not race-checked.",
    R_SCHED, A_NET),
"C04": P("fault_enumeration", [DNL],
    "stateless model checking of the real downloader: every failing transfer or refused write x preemption-bounded thread interleavings, with hang, race and endless-fetch detection",
    "3 to 5 ranges; which transfer fails for good (each), which write is refused (first to sixth, ENOSPC and EIO), both; the other transfers end before, with or just before the failing one; at most 1 preemption (thorough 2) and 2 completion-order deviations. A run that does not end within the scheduler's step bound counts as a hang.",
    R_SCHED, A_NET + A_SHIM),
"C05": P("fault_enumeration", [DNL],
    "exhaustive crash-point enumeration on the real downloader: every byte length of the interrupted output, resumed, interrupted again at every length and resumed",
    "Every cut of a small file (several body shapes, three formats), cut twice, killed at every writing call, and around record, range and buffer boundaries of larger files; service failing during the resume; a partial download of more than 2^31 and 2^32 bytes; near-equal and equal-but-for-the-end neighbouring hashes. A crash leaves a prefix of the bytes written in order (append-only file, no block reordering). Two hashes of one range that agree in their first 64 bits are outside the domain for sha1t64.",
    "one case per (format, shapes, ranges, cut position(s) or call, parallel); distinct by construction; non-trivial because each starts from a different remaining file", A_NET + A_SHIM),
"C06": P("fault_enumeration", [DNL],
    "exhaustive enumeration of refused writes (every byte offset at which space ends, every writing call) on the real downloader",
    "Every offset for outputs of a few hundred bytes, offsets around record/buffer boundaries (and a grid) for outputs of several buffers, every writing call failing once with ENOSPC and EIO and short; binary and text. Errors reported only by close(2) are not enumerated.",
    "one case per (format, output size, offset or call, error); distinct by construction; non-trivial because the refused write is confirmed to have been reached", A_NET + A_SHIM),
"C07": P("fault_enumeration", [drv("drv_toolfault", *T_ALL)],
    "exhaustive enumeration of refused writes (every byte offset, every changing system call, closed or broken standard output) on the real tools",
    "50 uses of hibp-convert, -topn, -sort, -diff and -dupes (types, sources, sinks, small and multi-buffer) and 27 of hibp-search: the output takes L bytes for every L of small outputs and a grid plus all buffer boundaries of large ones; each changing call fails once with ENOSPC/EIO; standard output broken, closed. A single fault per run; close(2) errors not enumerated.",
    "one case per (use, limit) or (use, call number, error) or (use, kind of standard output); distinct by construction; non-trivial because the run is compared with the complete output", A_SHIM),
"C08": P("exploration", [drv("drv_toolfault", *T_ALL), DNL],
    "bounded-exhaustive enumeration of option subsets x existing file states on the real tools",
    "All subsets of each tool's options relevant to files (hibp-download, hibp-convert, hibp-topn) x output absent/present (equal to the input, empty, missing directory) and malformed option values; every job of every tool compared for unchanged inputs.",
    "one case per (tool, option subset, file state); distinct by construction; non-trivial because directory contents before and after are compared", A_NET[:1]),
"C09": P("exploration", [drv("drv_codec")],
    "bounded-exhaustive enumeration of the real codec against a reference codec",
    "Every byte position x every pair of digit characters, every count of a boundary set, every byte value at every position for validity, all 2^20 range URLs. Hash bytes are varied one byte at a time over four backgrounds, not all combinations.",
    "one case per (type, byte position, digit pair, background), per (type, count, hash pattern), per (length, position, byte value), per (range, form of URL); every case is distinct by construction and non-trivial because the reference value differs from case to case"),
"C10": P("exploration", [drv("drv_cmp_sse"), drv("drv_cmp_avx2", cpu=["avx2"]), drv("drv_cmp_avx512", cpu=["avx512bw", "avx512f", "avx512vl"])],
    "bounded-exhaustive enumeration of comparisons against byte order, per instruction set",
    "Lengths 0..136, every first difference position, value pairs of a boundary set (all 65536 pairs for the lengths around the vector sizes), a later opposite difference at every position, 16 (thorough 64) alignments; built for SSE2, AVX2 and AVX-512BW (the latter two only where the CPU has them).",
    "one case per (length, alignment pair, background, difference positions, values); distinct by construction; non-trivial because ordering and equality are both checked against the byte order of that very pair"),
"C11": P("exploration", [drv("drv_ffile")],
    "bounded-exhaustive exploration of all read/iterator operation sequences on the real database class against an array",
    "All sequences of 4 (thorough 5; 64-bit type one more) operations out of 13 over two iterators and direct access, databases of 0..4 records, read buffers of 1..3; all databases of up to 5 (6) records over three keys under the standard algorithms; every pair of positions around the buffer boundaries of large databases; databases of more than 2^31 ... 2^36 bytes (sparse files), all positions around the power of two. References obtained from an iterator are used before the next read through the same database.",
    "one execution per operation sequence; the explorer visits each once; non-trivial because every read is compared with the file's record at that position"),
"C12": P("exploration", [drv("drv_ffile")],
    "bounded-exhaustive exploration of all write/flush/move/destroy histories of the real writer over a stream that refuses data at every point",
    "All histories of 6 (thorough 8) operations with writer buffers 1..3, stream buffer none/three records, destinations that take 0..3 and a half records; files with counts around the default buffers, writers moved in the middle.",
    "one execution per history; distinct by its decision sequence; non-trivial because the bytes that reached stream and destination are compared after every step"),
"C13": P("exploration", [drv("drv_ffile"), drv("drv_tools", "t/hibp-sort")],
    "bounded-exhaustive enumeration of databases x memory limits x orders on the real disk sort and the real hibp-sort",
    "All databases of up to 5 (thorough 6) records over 3 keys and 2 counts x 5 memory limits x 3 orders; structured databases of 999..4097 records (one to fourteen chunks); the tool up to 90000 records. Fewer chunks than the file descriptor limit.",
    "one case per (type, record sequence, order, memory limit); distinct by construction; non-trivial because order, permutation, input and leftover files are each compared"),
"C14": P("exploration", [drv("drv_tools", "t/hibp-search")],
    "bounded-exhaustive enumeration of databases x needles on the real hibp-search",
    "All subsets of seven keys (first and last possible hash included) x every key, its two neighbours, all zeros and all ones; every pair of byte positions p<q at which two keys differ in opposite directions; all subsets of six passwords as plain text; records and gaps around the read buffer's boundaries; databases of just over 2^31 ... 2^36 bytes; malformed hashes by length, position and character.",
    "one case per (type, database, needle); distinct by construction; non-trivial because hits, counts and misses are each compared with set membership"),
"C15": P("exploration", [drv("drv_toc", "t/hibp-search")],
    "bounded-exhaustive enumeration of databases x prefix bits x needles: search through the real table of contents against set lookup and against the search without it",
    "Library: all small databases over prefixes of 1..4 bits and group sizes around the read buffer; several databases of different types side by side in one process; tool: 15..20 bits with partial databases, complete databases of 2^15 and 2^16 (thorough 2^17) prefixes, needles at, before and after records; databases of more than 2^32 bytes; databases whose names differ only in directory or extension.",
    "one case per (type, database, bits, needle); distinct by construction; non-trivial because each answer is compared with set membership"),
"C16": P("fault_enumeration", [drv("drv_toc", "t/hibp-search")],
    "bounded-exhaustive exploration of histories (search, rewrite, extend, killed or out-of-space build at every writing call) of the real tool and library, with a logical clock for modification times",
    "Histories of up to 3 (thorough 4) steps with one (two) crash/fault at each of the first calls, torn after several byte counts, then all needles with both widths; several databases in one process with write and read faults. Two searches at the same time: each is stopped before its k-th file operation (every k it reaches), a rewrite happens at one of four points or not, the first is killed or goes on, from no table, a fresh or an old one; afterwards every needle's answer is compared with the current content. A rewrite in the same clock tick as the table is allowed once per history. Replacing a database by a file with an older modification time is outside (the tool compares times).",
    "one execution per history; distinct by decision sequence; non-trivial because after each history every needle's answer is compared with the current content", A_SHIM),
"C17": P("exploration", [drv("drv_srv", "t/hibp-server")],
    "bounded-exhaustive exploration of configurations x request histories on the real hibp-server over loopback, against set lookup",
    "All subsets of the three databases x text/JSON x table of contents x threads 1..2; all pairs (thorough triples) of a request alphabet in sequence; every record and both its neighbours, malformed hashes of every length and at every position, every byte in a plain password, malformed targets and other methods; databases of more than 2^31 ... 2^36 bytes. Targets that are not valid percent-encoded UTF-8 are only required to leave the server alive (restinio drops the connection).",
    "one case per (configuration, request position in its history); distinct by construction; non-trivial because status and body are compared with the reference answer"),
"C18": P("exploration", [drv("drv_srvmc")],
    "stateless model checking of the real server's request handler called from several threads: all interleavings up to a preemption bound at file operation and synchronisation points, with vector-clock race detection",
    "Two requests with 1 (all pairs of 6 kinds) and 2 preemptions (2 kinds), two requests each and three threads with 1; thorough: more kinds and one more preemption. The handler is taken out of restinio (restinio::run is overloaded), whose own threading is trusted; C17 drives the unmodified server.",
    "an execution is one complete run under one sequence of scheduling decisions, visited once; non-trivial because each answer is compared with the one the request gets alone",
    ["restinio calls the handler concurrently from its pool threads and is itself correct"]),
"C19": P("exploration", [drv("drv_ntlm")],
    "bounded-exhaustive enumeration of passwords and update cuts on the real NTLM/MD4 code against an independent implementation",
    "Every Unicode code point alone and in context, all lengths 0..300 around block boundaries, all combinations of boundary code points up to length 4, every malformed byte sequence of up to 3 bytes over a boundary alphabet, every cut of messages into up to three updates.",
    "one case per (password) or (message, cuts); distinct by construction; non-trivial because the digest is compared with the reference digest of that very input"),
"C20": P("exploration", [drv("drv_tools", "t/hibp-topn")],
    "bounded-exhaustive enumeration of databases x N x sink on the real hibp-topn against a reference selection",
    "All databases of up to 5 (thorough 6) records with three counts in three orders x every N 0..n+1 x file/stdout; structured databases around the read buffer x N around the writer buffer; counts over the field's whole range (-1, 0, 2^31-1, powers of two) in all orders; equal counts whose hashes differ at each pair of bytes; databases of more than 2^32 (thorough 2^33) bytes.",
    "one case per (type, database, N, sink); distinct by construction; non-trivial because the output is compared byte for byte"),
"C21": P("exploration", [drv("drv_tools", "t/hibp-diff")],
    "bounded-exhaustive enumeration of pairs of databases on the real hibp-diff against a reference diff",
    "All sequences of up to 7 (thorough 8) keys each same/updated/inserted/deleted (at most one deletion); runs of changes at and around the read buffer's boundaries of large databases; counts raised and lowered over the field's whole range; databases of more than 2^32 (thorough 2^33) bytes; keys differing at every pair of byte positions.",
    "one case per (type, edit sequence); distinct by construction; non-trivial because every hunk is compared"),
"C22": P("exploration", [drv("drv_tools", "t/hibp-convert")],
    "bounded-exhaustive enumeration of record sequences x limits x sources x sinks on the real hibp-convert in both directions",
    "All sequences of up to 4 records over 4 kinds (upper/lower case, boundary counts) x every limit 0..n+1 x file/stdin x file/stdout, with and without a last line end; counts and limits around all buffers, limits as numbers around 2^7, 2^8, ... 2^64; round trips. Text lines are well-formed (32/40 hex digits, ':' count).",
    "one case per (type, direction, records, limit, source, sink); distinct by construction; non-trivial because the output is compared byte for byte"),
"C23": P("exploration", [drv("drv_tools", "t/hibp-dupes")],
    "bounded-exhaustive enumeration of sorted databases x prefix bits on the real hibp-dupes against a reference",
    "Two and three records whose first difference is at each of 18 bit positions over three backgrounds x every --bits 32..64 and the default; large databases with duplicates at the read buffer's boundaries; refused bit counts.",
    "one case per (type, database, bits); distinct by construction; non-trivial because the list of reported records is compared"),
"C24": P("fault_enumeration", [drv("drv_toolfault", *T_ALL), drv("drv_toc", "t/hibp-search"), drv("drv_srv", "t/hibp-server")],
    "exhaustive enumeration of failing, truncated and short reads and failing seeks (every call) on the real tools, the database class and the real server",
    "50 uses of the tools plus hibp-search plain/with table built/loaded: each read fails once, fails from then on, finds the end of the file, each seek fails, each read is short; lookups through one database object: all sequences of 3 (thorough 4) with one (two) faults; server: each read/seek of each request fails. Whether an early end of a text input is an error cannot be decided by a reader of text and is not judged.",
    "one case per (use, call number, kind of fault); distinct by construction; non-trivial because the call is confirmed to have been made and the answer is compared with the fault-free one", A_SHIM),
"C25": P("exploration", [DNL],
    "stateless model checking of the real downloader judged on its transfer log: all completion orders, failure patterns and bounded interleavings; one run over all 2^20 ranges; conformance runs against the real libraries",
    "Start/limit/parallel combinations, both URL forms, all orders and batchings of up to 4 ranges, failure counts 0..6, at most 1 preemption; handle life cycle (init, add, remove, cleanup, use after cleanup) checked by the stand-in for libcurl; the whole index space once. The real network scenarios check URLs and the number in flight from the server's side.",
    R_SCHED, A_NET),
"C26": P("exploration", [drv("drv_toolfault", *T_ALL, "t/hibp-server")],
    "bounded-exhaustive enumeration of torn, missing and unreadable databases on the real tools and the real server",
    "Every length of a database of six records that cuts a record, lengths around 4096, 24000 and 65536 bytes and the read buffers' ends, no file, a directory; 43 uses of hibp-convert, -sort, -topn, -dupes, -diff (either file), -search (plain and with a table, three needles) and -server (each database, with and without table), all hash types the tool takes.",
    "one case per (use, length); distinct by construction; non-trivial because exit status, answers, records put out and files made are each checked"),
"C27": P("exploration", [drv("drv_codec"), drv("drv_tools", "t/hibp-convert"), DNL],
    "bounded-exhaustive enumeration of damaged text (every byte that is no digit at every position, every length that is too short) on the real parser, hibp-convert and the downloader under the controlled scheduler",
    "Parser: every non-digit byte at every position of the three types, alone and with a second damage behind it, every length below the full one, over four backgrounds with and without a count. hibp-convert: the same as first, second and last line, from file and standard input, plus texts that are something else altogether up to 1 MB. Downloader (binary forms): 20 kinds of damaged lines at every place of three ranges, both orders of completion; the body a resume looks at. What stands behind the hash (the count) is not part of this property.",
    "one case per (type, position, byte) or (type, length, tail) or (form, range, line, kind of damage); distinct by construction; non-trivial because each text is damaged and the outcome (refusal, records in front) is checked", A_NET[:1]),
"C28": P("exploration", [
        san("drv_mem", "C28", ["files", "tables", "texts", "sizes", "chunks", "widths"], *["ts/hibp-" + x for x in ("convert", "topn", "sort", "dupes", "diff", "search")]),
        san("drv_codec_san", "C09", [f"{k}-{t}" for k in ("digits", "counts", "valid") for t in TYPES] + ["sha1t64-from-sha1"]),
        san("drv_codec_san", "C27", [f"parse-{t}" for t in TYPES]),
        san("drv_cmp_san", "C10", ["arrays", "byte-pairs"] + [f"records-{t}" for t in TYPES]),
        san("drv_ffile_san", "C11", ["sequences-ntlm"] + [f"{k}-{t}" for k in ("algorithms", "buffers") for t in TYPES]),
        san("drv_ffile_san", "C12", ["histories-sha1"] + [f"files-{t}" for t in TYPES]),
        san("drv_ffile_san", "C13", [f"{k}-{t}" for k in ("small", "chunks") for t in TYPES]),
        san("drv_ntlm_san", "C19", ["every-code-point", "boundary-combinations", "lengths", "bytes-1-2", "md4-cuts", "md4-pieces"]),
        san("drv_toc_san", "C15", ["small-sha1", "side-by-side"] + [f"groups-{t}" for t in TYPES]),
        san("drv_srv", "C17", ["plain", "hashes"], "ts/hibp-server"),
        san("drv_dnl", "C28", ["damaged bodies", "damaged last range"], "ts/hibp-download")],
    "bounded-exhaustive enumeration of inputs on the real code and programs, built so that every access outside an object, use after free and undefined operation is reported (AddressSanitizer, UndefinedBehaviorSanitizer, checked standard library)",
    "Database files of every length up to three records with four contents through every tool; tables of contents of every length up to six entries with eight contents, wrong ones included; text lines of every length with five contents as file and as argument; record counts around the tools' buffers; up to 80 chunks to merge; tables of each width the tools take; server requests of C17; damaged bodies of C27 through the real downloader; and the enumerations of C09, C10, C11, C12, C13, C15, C19 and C27 on the library. Only what a sanitizer reports counts. Unaligned loads (harmless on the supported processors), reads of uninitialised memory and libraries that are not header-only are outside.",
    "one case per execution of the explored scenario; distinct by construction; non-trivial because each input is processed to its end or refused by the real code", ["the sanitizers report every invalid access the instrumented code makes; accesses made by the C library, libcurl, libevent and the standard library's compiled part are checked only where they are intercepted"]),
}
