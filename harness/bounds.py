"""Stated bounds per property: (quick, thorough, outside, assumptions)."""
_x86 = "x86-64, LP64, signed char; code lowered by clang 18 at -O1 without its optimiser, plus inlining and SROA; NDEBUG is defined as in a release build"
_fp = "floating-point operations are first abstracted to IEEE-754 facts (a refutation there is a refutation), then solved exactly"
_cista = "cista's generic_string is represented by a stand-in (the library is not installed)"
_fmt = "fmt is represented by a small formatter in the engine; native replays use the real library"
_sc = "sequentially consistent memory with a happens-before race check on every access; at most 6 threads; thread starts are not schedule points of their own"
_stream = "libstdc++'s stream templates are executed; the parts that live in the shared library (locale, ios_base, number formatting, FILE) are modelled for the \"C\" locale"
_fs = "the file system is a model with one buffer per registered file"
BOUNDS = {
"C01": ("every view of up to 4 bytes and every needle of up to 3 bytes, all bytes symbolic, positions/sizes/fields any 64-bit value; views of 15..300 bytes (14 lengths around powers of two) with symbolic slicing arguments, one symbolic byte for trimming and searching",
        "views of up to 7 bytes, needles of up to 4; the same long views", "other contents of views longer than 7 bytes; string building and copying", [_x86]),
"C02": ("every pair of views of up to 4 bytes, every triple of up to 2 bytes; pairs of views of 8..257 bytes (15 lengths) that differ in up to 2 symbolic bytes at the front, middle, a third or the end",
        "pairs of up to 8 bytes, triples of up to 4; long pairs with up to 4 differing bytes", "long views that differ in more places", [_x86]),
"C03": ("every text of up to 4 bytes with every separator byte, every break/skip position; texts of up to 300 lines and lines of up to 257 bytes with LF and CRLF, one byte symbolic",
        "texts of up to 7 bytes; the same long texts", "texts with an embedded '\\r' in other places than those of the short texts", [_x86]),
"C04": ("every byte string of up to 4 bytes for the ten integer types; all values within 2 digits of both ends of every type's range",
        "byte strings of up to 6 bytes, 3 digits around the limits", "values outside the representable range (the parser wraps; nothing is promised)", [_x86]),
"C05": ("every byte string of up to 6 bytes", "every byte string of up to 9 bytes", "longer inputs (the grammar's longest word has 5 letters)", [_x86, _cista]),
"C06": ("syntax and position: every byte string of up to 5 bytes; values: every decimal number with 5 or 12 integer digits, 1 integer and 1 or 2 fraction digits, or only a fraction digit, in float or double, both signs; texts of 9..38 equal integer digits (any first digit) with 0 or 30 fraction digits",
        "byte strings of up to 8 bytes; up to 6 and 13 integer digits, 2 integer and 2 fraction digits, 3 fraction digits", "exponents (not part of the grammar), numbers with more digits, infinities", [_x86, _fp]),
"C07": ("every byte string of up to 6 bytes (8 for columns, 7 for the splitter) for each of ten reader entry points; headers and rows of 62..69 columns with an arbitrary byte", "every byte string of up to 8 bytes (10 for columns and splitter)", "longer texts; termination is decided as: every path ends within 3 million steps", [_x86, _cista]),
"C08": ("every value of up to 5 bytes, quoted and unquoted, separators comma, semicolon and tab, six contexts; values of 14..257 bytes with 2 symbolic bytes", "values of up to 8 bytes; long values with 3 symbolic bytes", "values with line breaks (excluded by the property)", [_x86, _cista]),
"C09": ("every table of 1..3 columns in any order out of 4 known and 1 unknown name, up to 2 rows, symbolic cells of up to 1 byte (2 with ';'), LF/CRLF, with and without final line break, quoted and unquoted; headers of 62..67 columns; numbers behind 0..2 blanks; tables of up to 32768 short rows; tables of up to 300 rows and cells of up to 300 bytes with symbolic contents in places",
        "5 columns with 1 row, 3 rows with 3 columns", "reading from a file by path; larger tables with other contents", [_x86]),
"C10": ("every text of 1..3 columns in any order out of 3 known and 1 unknown name, up to 2 rows with symbolic cells of up to 1 byte, optional byte order mark, LF/CRLF, blank lines anywhere; up to 300 rows and cells of up to 300 bytes; headers of 1..300 columns, nine spellings of a name, short and surplus rows, separators semicolon and tab", "3 rows with 3 columns, 2 rows with 4 columns", "longer symbolic cells", [_x86]),
"C11": ("every record of up to 5 bytes without quotes for separators comma, semicolon and space; quoted first column; columns of up to 257 bytes, up to 300 surplus columns, seven targets", "records of up to 8 bytes", "quotes inside later columns (C07 and C08 cover their parsing)", [_x86]),
"C12": ("every buffer of up to 8 bytes, with and without a consumer and with moves in between; 1, 2 and 300 lines of up to 40000 bytes", "buffers of up to 14 bytes", "-", [_x86]),
"C13": ("every two sorted sequences of up to 3 elements (32-bit keys) for inner, left and full join with three comparators, vectors and singly linked lists; groups of 1, 7, 17 and 40 elements over three symbolic keys", "sequences of up to 5 elements (lists: 4); groups of 3..40", "sequences with more distinct keys", [_x86]),
"C14": ("every two sorted sequences of up to 3 elements with symbolic keys and contents, report and replay; sequences of 20 elements that differ in one place", "up to 4 (report) and 5 (replay) elements; 40 elements", "long sequences that differ in several places", [_x86]),
"C15": ("every two sorted sequences of up to 3 and 4 elements, three call forms; runs of 17 over symbolic keys", "up to 6 and 6 elements; runs of 17 and 40", "-", [_x86]),
"C16": ("every sequence of up to 5 elements (sorting form 4) in vector and list, four forms; runs of 17 and sorted inputs of 20 and 300 elements with one symbolic element", "up to 8 elements (sorting 6); 100 and 40", "std::sort's behaviour above 16 elements only with one symbolic element", [_x86]),
"C17": ("every sequence of up to 3 (erase, erase_if), 4 (erase_duplicates with every sub-range) and 5 (sorted insertion) elements in vector and deque; 20 elements with one symbolic", "5, 5, 6 and 9 elements; 40 elements", "-", [_x86]),
"C18": ("every key sequence of up to 4 elements with up to 3 companions; 20 and 300 rows with one symbolic key", "up to 6 elements; 40 and 300 rows", "-", [_x86]),
"C19": ("every sequence of up to 4 elements in vector and list, five forms; 20 elements of which one may differ anywhere", "up to 9 elements; 70 elements", "-", [_x86]),
"C20": ("every sequence of up to 5 elements, window sizes 1..4 and pairwise, vector, list and deque, owned and borrowed, move-only elements; lengths 15..300", "up to 9 elements; the same lengths", "larger windows", [_x86]),
"C21": ("containers of up to 3 elements in five type combinations and ten forms, containers without a size, move-only elements, every combination of up to 2 elements for mismatched sizes; containers of 127..300 elements", "up to 6 elements; mismatches up to 4", "more than three containers", [_x86]),
"C22": ("containers of up to 3 elements of seven kinds, random-access walks of 3 steps; 127..300 elements; sequences of any length up to 2^48 with two symbolic jumps; move-only elements", "6 elements, 4 steps", "-", [_x86]),
"C23": ("every pair of 64-bit positions within 2^60 (2^29 for 32-bit distances) and every offset of six integer types; forward, bidirectional, single-pass, sized-sentinel and wrapper facades over up to 3 elements", "the same", "positions whose distance overflows the difference type", [_x86]),
"C24": ("every composition of up to 3 stages over vectors and 2 over lists, owned containers, integer ranges and generators (1 over ranges of class type) of up to 3 elements, symbolic elements and stage parameters, four ways to draw", "the same stages over up to 4 elements", "deeper pipelines, stages with side effects on the source", [_x86]),
"C25": ("every source of up to 2 elements of six arithmetic types (seven and four ways to pass the source) for ten groups of sinks; sources of 127..300 integers with one symbolic element", "sources of up to 4 elements", "sums that overflow 64 bits, NaN elements", [_x86]),
"C26": ("every way out of the scope (normal, exception, early destruction), moves, replacement and skipping for both guard kinds, symbolic values", "the same", "actions that throw while another exception is in flight", [_x86]),
"C27": ("every body of up to 2 steps (yield, throw, return, yield in an inner scope) under every history of 4 operations (query, request, move, drop), nested generators, string values; 127..300 values", "bodies of 3 steps, 6 operations", "coroutines suspended in several threads", [_x86, "coroutines are lowered by LLVM's coroutine passes before they are executed"]),
"C28": ("every history of 3 buffer operations with sizes up to 2 (resize up to 3) with and without allocation failures, 4 file-handle operations, files of up to 3 bytes under every outcome of open/seek/tell/read/write, 11 sizes around block sizes up to 1 MiB", "4 operations, sizes up to 3, files of up to 6 bytes, 6 handle operations", "directories and devices", [_x86, "the C file functions are a model that may fail at every call"]),
"C29": ("every file of up to 3 bytes with 3 reads, lines over files of up to 5 bytes, 3 moves/assignments between readers of two files, every outcome of open/fstat/mmap", "5 bytes, 4 reads, lines over 8 bytes, 5 moves", "files that change while they are mapped; Windows", [_x86, "open, fstat, mmap, munmap and close are a model that may fail"]),
"C30": ("every sequence of 4 keys (5 for indices), with failing factories and writes in between, for ordered, reverse-ordered, hashed and user-defined maps; 127..300 keys in two orders", "5 keys (6 for indices)", "-", [_x86]),
"C31": ("every argument vector of up to 4 arguments of up to 3 bytes and of up to 2 arguments of up to 5 bytes for four flag sets (bool, int, unsigned, string; required and optional)", "5 arguments of up to 3 bytes, 3 arguments of up to 5 bytes", "an empty argument counts as no value", [_x86]),
"C32": ("every combination of null and non-null pointers and symbolic values for structs of references, raw and owning pointers", "the same", "boost::pfr-style binding of more than the listed member counts", [_x86]),
"C33": ("every dynamic type of an eight-class hierarchy (with multiple and virtual inheritance) and four handler lists; five alternatives of an overload set", "the same", "deeper hierarchies", [_x86]),
"C34": ("all schedules of 1 worker x 3 batches of 0..3 jobs with 2 spurious wake-ups, 2 workers x 2 batches of 0..2 jobs with 1, 2 workers x 2 batches of 0..3 jobs, jobs that wait for each other, construction and destruction", "3 spurious wake-ups, 2 workers x 3 batches; 3 workers with at most 3 preemptions", "more threads; std::thread::hardware_concurrency() == 0", [_x86, _sc]),
"C35": ("all schedules of 2 threads x 3 jobs (3 threads x 3..4 jobs for the basic forms) for four entry points, both error strategies, every set of failing jobs and failing progress callbacks, progress with description at three moduli", "2 and 3 threads x 4 jobs; 4 threads for the waiting jobs", "more threads", [_x86, _sc]),
"C36": ("five common settings with every 32-bit maximum and every sequence of 2 updates; every finite setting (|bounds| up to 1e30) with 2 updates; inputs and maxima of 2^34 and 2^56 scale", "3 updates", "maxima beyond 32 bits other than 100*2^34 and 100*2^56; NaN bounds", [_x86, _fp]),
"C37": ("2 chains of up to 2 setting changes with symbolic values; 3 registry operations with up to 3 names", "1 chain of 3, 2 chains of 2; 4 registry operations", "settings from several threads (C47)", [_x86]),
"C38": ("every form of the verify helpers with symbolic condition and arguments, four time stamps, what is written to the log stream", "the same", "log streams in an error state", [_x86, _fmt]),
"C39": ("all 8- and 16-bit values; 32- and 64-bit values with any 4-bit window at any position and the rest all zeroes or all ones", "all values of the 32-bit types as far as the time limit allows; windows of 8 bits", "64-bit values with more than 8 free bits", [_x86]),
"C40": ("containers of up to 3 elements of four kinds in eleven forms (also results that cannot be copied or have no default), concatenation, repetition, throwing functions, named sources of elements that notice being moved from; lengths 15..300", "up to 5 elements", "concat(v, v); move-only elements other than as results", [_x86]),
"C41": ("every collection of up to 4 elements (vector, const vector, list, deque), all algorithms; lengths 15..300 with one symbolic element; 65600 given elements", "up to 7 elements (sorting 6)", "-", [_x86]),
"C42": ("every enumerator of the harness' six enums (names of 1..40 characters, various spacings)", "the same", "enumerators with explicit values (excluded by the property)", [_x86, _stream]),
"C43": ("every file of up to 8 bytes (whole) and 6 bytes (lines), files of 8189 concrete plus 4 and 65535 plus 2 symbolic bytes, file names like -x, missing files, directories, standard input", "40 bytes, 9 bytes, 8187+8 bytes", "devices, files that change during the read", [_x86, _stream, _fs]),
"C44": ("every byte of every literal of the harness (lengths 0..30), position symbolic", "the same", "literals longer than 30 characters are cut", [_x86]),
"C45": ("messages of up to 3 symbolic bytes in six kinds of statements and all levels, six source paths and line numbers, 8 time stamps from 1970 to 9999; timers with symbolic elapsed time (16 bits of nanoseconds around 12 coarse values)", "messages of up to 6 bytes, timer names of 4, 20 bits", "years beyond 9999; lines of several threads may interleave", [_x86, _stream, "clock and time() are a model"]),
"C46": ("every progress value in the reporting range for one bar, 3 operations on up to 2 trackers with symbolic progress, status and visibility, up to 12 trackers and 260 trackers, scopes", "names of 6 bytes, 4 operations, 4 names, 10 trackers", "status texts with line breaks", [_x86, _stream, _fmt]),
"C47": ("all schedules of 2 threads with 1 or 2 updates each; 2 threads that create, activate, update and print; 2 threads with one chain of settings each; one thread clearing while another looks up, activates, updates or prints", "3 threads with one update or one chain each", "more threads; bounds changed while another thread updates", [_x86, _sc, _stream]),
"C48": ("flag sets with short/long/both/neither names and required flags, values of up to 3 symbolic bytes and numbers of -999..9999", "values of up to 8 bytes", "-", [_x86, _stream]),
"C49": ("names of 0, 1, 2, 7, 14 and 15 characters of which up to four are symbolic, for the own and for another thread next to a third one that names itself or not", "the same", "names longer than 15 characters, which Linux refuses; Windows and macOS variants", [_x86, _sc, "pthread_setname_np is a model"]),
}
