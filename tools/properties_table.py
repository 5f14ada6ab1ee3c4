I="inputs"; H="histories"; S="schedules"; C="configurations"; F="fault_sequences"; PR="programs"

p("C01","String-view slicing never leaves the viewed buffer and clamps correctly",
"For every viewed string and every position, length and field, a sub-view lies completely inside the viewed bytes, starts at the requested position clamped to the length and has the requested size clamped to what is left; front/back whitespace trimming removes exactly the leading/trailing spaces and newlines, and advancing the front by n drops exactly the first n bytes. Searching (contains, starts-with, offset-of) agrees with the byte-wise definition for every needle.",
[I],"all byte strings and all positions/sizes (full size_t range) within the stated length bound",
"cstr_test.cc and cstr_cr_test.cc use a handful of literals; clamping at size_t extremes, empty views and embedded NULs is never reached",
["parser/cstr.h"],[("min-clamping in substr","include/utl/parser/cstr.h: cstr::substr"),("trim","include/utl/parser/cstr.h: skip_whitespace_front/back")],
observe=["return values of cstr::substr/contains/starts_with/substr_offset/trim"])

p("C02","String-view equality and ordering are the byte-wise ones and agree",
"Two string views compare equal exactly if they have the same length and the same bytes, including bytes after an embedded NUL. The ordering is the lexicographic order of the bytes compared as `char`, a strict weak order in which two views are equivalent exactly when they are equal.",
[I],"all pairs and triples of byte strings within the stated length bound",
"tests compare a few NUL-free literals; the relational laws quantify over all triples",
["parser/cstr.h"],[("operator==","include/utl/parser/cstr.h: cstr::operator=="),("operator<","include/utl/parser/cstr.h: cstr::operator<")])

p("C03","Splitting text into tokens and lines loses nothing and all APIs agree",
"For every text and separator, the tokens joined with the separator reproduce the text (up to one trailing separator), no token contains the separator, each token is a view into the text, and numbering counts 1,2,3,... . Line iteration (callback, numbered, range/iterator, get-first-line, skip-leading-lines) yields the same newline-separated lines with exactly one trailing carriage return removed, and an early break stops immediately after the current token.",
[I],"all byte strings and separators within the stated length bound",
"tests iterate over a few fixed documents; the agreement of six APIs must hold on every text, including empty lines and CR at the end",
["parser/cstr.h"],[("for_each_token","include/utl/parser/cstr.h: for_each_token"),("line_iterator","include/utl/parser/cstr.h: line_iterator::operator++"),("skip_lines","include/utl/parser/cstr.h: skip_lines")])

p("C04","Integer parsing returns the decimal value, the remainder and a truthful status",
"For every byte string and every integer width, the parser consumes exactly an optional sign (minus only for signed types, then an optional plus) and the longest run of decimal digits, yields the decimal value whenever it is representable, and leaves the rest untouched; without any digit it yields the default value. It reports success exactly if at least one digit was read and nothing is left over, and the verifying variant throws exactly if the report is negative.",
[I],"all byte strings up to the stated length, for 8- to 64-bit signed and unsigned targets, and all default values",
"arg_parser_test.cc (not even built in the offline baseline) tries a few literals; boundary values, signs and junk suffixes quantify over all inputs",
["parser/arg_parser.h"],[("parse_arg for integers","include/utl/parser/arg_parser.h: parse_arg(cstr&, IntType&)"),("parse_verify","include/utl/parser/arg_parser.h: parse_verify")])

p("C05","Boolean and string parsing follows its grammar without reading out of bounds",
"For every byte string, the boolean parser yields true for texts starting with t/T, false for texts starting with f/F, otherwise the default; it reports success exactly for a case-insensitive 'true' or 'false', consumes at most the length of that word and never reads or advances beyond the input. String targets receive exactly the bytes of the input; skipping a line stops right after the first newline.",
[I],"all byte strings up to the stated length and both default values",
"the tests try the exact words only; truncated words at the end of a buffer are the dangerous inputs",
["parser/arg_parser.h"],[("parse_arg for bool","include/utl/parser/arg_parser.h: parse_arg(cstr&, bool&)"),("skip_line","include/utl/parser/arg_parser.h: skip_line")])

p("C06","Floating-point parsing yields the decimal value and stops at the first bad byte",
"For every text of the form [-][+]digits[.digits], the floating-point parser reports success, consumes everything and returns a value within accumulated rounding error of the decimal value, with the sign applied. For other texts (no digit at all, or bytes after the number) it does not report success and leaves the input at the first byte that cannot belong to the number; it never reads out of bounds.",
[I],"all byte strings up to the stated length for float and double, including integer parts beyond 32 bit",
"tests compare a few literals; the digit-by-digit accumulation must be right for every digit string",
["parser/arg_parser.h"],[("parse_fp","include/utl/parser/arg_parser.h: parse_fp")])

p("C07","The CSV readers are memory-safe and terminate on arbitrary bytes",
"For every byte string, reading it as a CSV column, header, row or table (tuple-based reader, line-based reader and column splitter) terminates, reads only bytes of the input, and every produced column is a view inside the input. Consuming a column never moves the cursor backwards or beyond the end.",
[I],"all byte strings up to the stated length, including unterminated quotes, lone quotes and stray carriage returns",
"csv_test.cc (not built offline) contains only well-formed tables",
["parser/csv.h","parser/csv_range.h","parser/split.h"],[("parse_column","include/utl/parser/csv.h: parse_column"),("read_row","include/utl/parser/csv.h: read_row")])

p("C08","CSV columns round-trip: quoting and unquoting a value returns the value",
"For every value without line breaks, writing it quoted (with embedded quotes doubled) followed by a separator or line end and reading it back as a string column yields the value byte for byte and leaves the cursor at the separator/line end; a value without quotes, separators and line breaks also round-trips unquoted.",
[I],"all values up to the stated length, all separators used by the reader instantiations, all following contexts (separator, LF, CRLF, end)",
"tests quote two or three literals; doubling and adjacent quotes need all values",
["parser/csv.h"],[("parse_column","include/utl/parser/csv.h: parse_column"),("unescape_quoted_string","include/utl/parser/csv.h: unescape_quoted_string")])

p("C09","CSV tables map columns by header name, one result per row",
"For every well-formed table, reading it into tuples yields one entry per data row in order; each tuple field receives the value of the column whose header equals its configured name, wherever that column stands, fields without a matching column keep an empty value, and unknown columns are ignored. Numbers may stand behind blanks. LF and CRLF files with or without a final line break give the same result, and a header with more than 64 columns is rejected with an exception.",
[I,C],"all column permutations, all cell contents, row counts and line-break styles within the stated bounds",
"csv_test.cc (not built offline) has a handful of fixed tables",
["parser/csv.h"],[("read_header","include/utl/parser/csv.h: read_header"),("read_rows/read_row","include/utl/parser/csv.h: read_rows"),("has_row_remaining","include/utl/parser/csv.h: has_row_remaining")])

p("C10","The streaming CSV pipeline maps named columns to struct fields per line",
"For every text, the streaming line/CSV pipeline ignores a leading UTF-8 byte order mark, takes the first line as header and produces one struct per following non-empty line up to the first empty line, each field holding the parsed cell of the column with its name (independent of column order) and its default if the column is missing or the cell is empty.",
[I,C],"all header permutations and cell contents within the stated bounds",
"pipe_csv_test.cc (not built offline) has fixed inputs",
["parser/csv_range.h","parser/line_range.h","parser/buf_reader.h"],[("read_header<T>","include/utl/parser/csv_range.h: read_header"),("csv_range::read_row","include/utl/parser/csv_range.h: csv_range::read_row")])

p("C11","Splitting a record into typed columns assigns column i to target i",
"For every record and separator, splitting into n typed targets parses the i-th separated column into the i-th target; surplus columns are ignored and targets beyond the last column stay at their value-initialised default.",
[I],"all records up to the stated length, several separators and target type lists",
"only one fixed example in the tests",
["parser/split.h"],[("split","include/utl/parser/split.h: split")])

p("C12","Buffered line reading partitions the buffer and reports progress truthfully",
"For every buffer, repeatedly reading lines yields consecutive views which together with the newlines make up the whole buffer, then an invalid view forever. The progress consumer is called after every newline-terminated line with exactly the number of bytes consumed so far, strictly increasing and never beyond the buffer size.",
[I],"all byte strings up to the stated length",
"tests read one fixed buffer",
["parser/buf_reader.h"],[("read_line","include/utl/parser/buf_reader.h: buf_reader::read_line")])

p("C13","Joins report every key group exactly once, in order, with the right partners",
"For every two sorted sequences and every strict weak order, the inner/left/full join calls the match function exactly once for every key present in both with the complete groups of equal elements of both sides, the left function exactly once for every key only in the first, and the right function for every key only in the second; keys are reported in ascending order and the groups partition the inputs.",
[I],"all pairs of sorted sequences within the stated length bound, all key values, for each join flavour and comparator overload",
"join_test.cc uses a few literal vectors; group boundaries at every relative position need all inputs",
["join.h"],[("join_impl","include/utl/join.h: join_impl")])

p("C14","Sorted diff reports exactly the differences and replaying it gives the target",
"For every two sorted sequences, the diff reports an element of the old sequence without partner as deleted, an element of the new one without partner as added and partners that are not deeply equal as changed, each exactly once in ascending order; applying the reported changes to the old sequence yields the new one, and equal sequences give no report.",
[I],"all pairs of sorted sequences within the stated length bound",
"sorted_diff_test.cc has one example",
["sorted_diff.h"],[("sorted_diff","include/utl/sorted_diff.h: sorted_diff")])

p("C15","Power-set intersection reports every equal pair exactly once",
"For every two sorted sequences with duplicates, the callback receives every pair (element of first, element of second) of equivalent elements exactly once, always with the first sequence's element as first argument, and nothing else.",
[I],"all pairs of sorted sequences within the stated length bound",
"power_set_intersection_test.cc has fixed examples",
["power_set_intersection.h"],[("power_set_intersection","include/utl/power_set_intersection.h: power_set_intersection"),("for_each_equal","include/utl/power_set_intersection.h: for_each_equal")])

p("C16","Equal-range iteration partitions the sequence into maximal equal runs",
"For every sequence, the linear variant calls back with consecutive non-empty runs that cover the sequence exactly, elements within a run equal the run's first element and adjacent runs differ; the sorting variant does the same on the sorted permutation of the input, one run per distinct key in ascending order.",
[I],"all sequences within the stated length bound, default and custom comparators",
"no unit test covers these functions",
["equal_ranges.h","equal_ranges_linear.h"],[("equal_ranges","include/utl/equal_ranges.h: equal_ranges"),("equal_ranges_linear","include/utl/equal_ranges_linear.h: equal_ranges_linear")])

p("C17","Erasing and sorted insertion change a container exactly as specified",
"Erasing a value or everything matching a predicate removes exactly those elements and keeps the order of the rest; erasing duplicates leaves each distinct element once in ascending order (outside a given sub-range nothing changes its order). Inserting into a container sorted by a total order consistent with equality keeps it sorted, inserts only if no equal element is present, and reports the element's position and whether it was inserted.",
[I],"all sequences and elements within the stated length bound, for vector and deque, default and custom comparators",
"no unit test covers these functions",
["erase.h","erase_if.h","erase_duplicates.h","insert_sorted.h"],[("erase","include/utl/erase.h"),("erase_duplicates","include/utl/erase_duplicates.h"),("insert_sorted","include/utl/insert_sorted.h")])

p("C18","Sorting by one sequence permutes all companion sequences identically",
"For every key sequence and companion sequences of the same length, the result's keys are sorted, each (key, companion, ...) row of the result is a row of the input with the same multiplicity, and the inputs are not modified.",
[I],"all key and companion contents within the stated length bound (including lengths above the introsort threshold with symbolic positions)",
"no unit test covers this function",
["sort_by.h"],[("sort_by/apply_permutation","include/utl/sort_by.h")])

p("C19","Uniformity check tells whether all elements agree, without modifying them",
"For every sequence, the uniformity check returns true exactly if all elements are equal (or all predicate values agree), also for empty and single-element sequences, and leaves the sequence unchanged.",
[I],"all sequences within the stated length bound, iterator and container forms, with and without predicate",
"is_uniform_test.cc has three literals",
["is_uniform.h"],[("is_uniform","include/utl/is_uniform.h")])

p("C20","n-wise iteration yields every window of n consecutive elements in order",
"For every sequence of length m, n-wise (and pairwise) iteration yields exactly max(0, m-n+1) windows, the i-th being elements i..i+n-1 by reference to the container, for owned and borrowed containers, its reported size is that number and iterators are equal exactly at the same position.",
[I],"all sequences within the stated length bound including those shorter than the window, window sizes 1 to 4",
"pairwise_test.cc has fixed vectors of one length",
["nwise.h","pairwise.h"],[("nwise_iterator","include/utl/nwise.h: nwise_iterator")])

p("C21","zip iterates all containers in lockstep and rejects mismatched sizes",
"For containers of equal size, zip yields exactly that many tuples, the i-th referring to the i-th elements (writes go through to the containers; the const form refers to the same elements, read-only), indexing and backward iteration agree with forward iteration. Checked zipping of containers of different sizes throws.",
[I],"all container contents and size combinations within the stated bounds, two and three containers, lvalues and rvalues",
"zip_test.cc uses fixed containers",
["zip.h"],[("zip_iterator","include/utl/zip.h: zip_iterator"),("check_dimensions","include/utl/zip.h: check_dimensions")])

p("C22","enumerate pairs every element with its index",
"For every container, enumeration yields each element exactly once in order together with its zero-based position, gives write access to the original element, and iterator arithmetic (pre/post increment and decrement, +=, -=, distance) keeps index and element in step, starting from the beginning or, for random-access containers, from the end.",
[I],"all container contents and jump distances within the stated bounds, lvalue and rvalue containers, element types incl. pointers",
"no unit test covers it",
["enumerate.h"],[("iterator","include/utl/enumerate.h: iterator"),("enumerate","include/utl/enumerate.h: enumerate")])

p("C23","Iterator facade derives a lawful random-access iterator from its primitives",
"For every position and offset, an iterator built on the facade obeys the random-access laws: ++/-- invert each other, post-forms return the old position, it+n, n+it, it-n, +=, -= and [] agree, the distance of two iterators is the number of steps, and all six comparison operators agree with the sign of the distance; facades over fewer primitives (forward, bidirectional, sentinel) derive the corresponding subset.",
[I],"all positions and offsets in the stated range",
"no unit test covers the facade",
["iterator_facade.h"],[("iterator_facade","include/utl/iterator_facade.h")])

p("C24","Lazy pipeline views yield exactly the specified subsequence, in order",
"For every input sequence and any composition of filter, map, take-while and adjacent-unique stages over containers, integer ranges and generators, the elements that arrive are exactly those of the corresponding list operations in the same order; stages evaluate nothing beyond the end of their source and a generator source is not consumed past the element that ends the pipeline.",
[I,PR],"all input contents within the stated length bound, all predicates given by symbolic threshold tables, the stated stage compositions",
"pipes tests use fixed vectors and one stage at a time",
["pipes/all.h","pipes/range.h","pipes/remove_if.h","pipes/transform.h","pipes/take_while.h","pipes/unique.h","pipes/iota.h","pipes/generate.h","pipes/make_range.h","pipes/iterable.h"],
[("view adaptors","include/utl/pipes/*.h: next/read/valid")])

p("C25","Pipeline sinks aggregate exactly the elements that arrive",
"For every input sequence (given as range, container or pointer to container), count, sum, average, maximum, fold, find-first, for-each and the collecting sinks (vector, set, map, emplace) return the mathematical result over exactly the elements that arrive (maximum and fold together with their start value, which for the maximum is a zero-initialised value unless given), including negative and fractional numbers, and leave a borrowed source unchanged.",
[I],"all input contents within the stated length bound, integer and floating-point elements",
"avg/count/max tests use one fixed vector each",
["pipes/count.h","pipes/sum.h","pipes/avg.h","pipes/max.h","pipes/accumulate.h","pipes/find.h","pipes/for_each.h","pipes/vec.h","pipes/insert.h","pipes/map.h","pipes/emplace_back.h"],
[("sinks","include/utl/pipes/*.h: operator|")])

p("C26","Scope guards run their action exactly once on every way out of the scope",
"A scope guard runs its action exactly once when its scope is left normally or by an exception, with the guarded value at that time, and not at all if it was told to skip; after moving a guard, the action runs exactly once in total, when the new owner dies.",
[I,H],"all sequences of construct/move/skip/throw decisions within the stated bound",
"no unit test covers raii/finally",
["raii.h"],[("raii","include/utl/raii.h: raii::~raii"),("finally","include/utl/raii.h: finally::~finally")])

p("C27","Generators deliver the yielded values once, in order, and rethrow errors",
"For every coroutine body, a generator delivers exactly the yielded values in order, lazily (the body advances only when the next value is asked for), however often emptiness is queried in between; it reports exhaustion exactly after the last value, an exception thrown in the body surfaces at the request that hits it, and destroying the generator at any point releases all locals of the body exactly once.",
[I,H],"all yield/throw/stop decisions and all interleavings of queries and requests within the stated number of steps",
"no unit test covers generator",
["generator.h"],[("generator","include/utl/generator.h: generator::fill")])

p("C28","Byte buffers and file handles own their resource exactly once",
"For every sequence of construct, move, move-assign, resize and destroy operations and every outcome of the allocation and file calls, each allocation and file handle is released exactly once and never used afterwards, contents up to the smaller size survive resize and move, and failure of allocation, open, seek, read or write is reported by exception without losing the old contents. Reading a file returns exactly its bytes.",
[H,F,I],"all operation sequences within the stated bound with every allocation/file call allowed to fail, all file contents within the bound",
"no unit test injects failures or counts releases",
["parser/buffer.h","parser/file.h"],[("buffer","include/utl/parser/buffer.h"),("file","include/utl/parser/file.h")])

p("C29","The memory-mapped reader exposes exactly the file and releases it once",
"For every file, the memory-mapped reader returns its bytes in order: fixed-size reads are clamped to what remains and line reads split at newlines exactly like the in-memory reader, and progress is consumed/size. Every opened descriptor and mapping is released exactly once on every path including open/map failures and moves.",
[I,F,H],"all file contents within the bound, every system call allowed to fail, all construct/move/assign sequences within the bound",
"no unit test covers it",
["parser/mmap_reader_unix.h"],[("mmap_reader","include/utl/parser/mmap_reader_unix.h")])

p("C30","Get-or-create creates at most once and indices are dense and stable",
"For every sequence of keys, get-or-create returns a reference to the entry of the key, calls the factory exactly for keys not yet present and leaves existing entries unchanged, for ordered and hashed maps. Get-or-create-index assigns 0,1,2,... in order of first appearance and always returns the same index for the same key.",
[H,I],"all key sequences within the stated bound",
"no unit test covers these",
["get_or_create.h","get_or_create_index.h"],[("get_or_create","include/utl/get_or_create.h"),("get_or_create_index","include/utl/get_or_create_index.h")])

p("C31","Command-line flags are assigned by name and missing required flags are rejected",
"For every argument vector, each declared flag receives the value parsed from the argument after the last occurrence of its long or short name that is followed by a non-empty argument (a boolean flag becomes true by its mere presence), independent of the order of the flags; flags that are not given keep their default and arguments naming no flag change nothing; nothing beyond the given number of arguments is read. An exception naming the flag is thrown exactly if a required flag does not occur or its last occurrence has no following non-empty value.",
[I],"all argument vectors within the stated number of arguments and lengths",
"cmd_line_parser_test.cc (not built offline) has a few vectors",
["cmd_line_parser.h"],[("parse_flags","include/utl/cmd_line_parser.h: parse_flags")])

p("C32","Initialising a struct of references binds each member to the right source field",
"Initialising a struct of references and pointers from another struct binds every reference to the first source field of its type, directly or through an owning pointer, and gives every pointer the address held by the matching source pointer (null if it is empty). The result is empty exactly if a pointer needed for a reference is null, and nothing is copied: writes through the result change the source.",
[I,PR],"all field values for the instantiated struct shapes",
"init_from_test.cc (not built offline) has fixed values",
["init_from.h"],[("init_from","include/utl/init_from.h")])

p("C33","Runtime type matching picks the first handler that fits",
"For every dynamic type of the object, matching invokes exactly one handler, the first whose parameter type the object has, with a correctly converted pointer and returns its result; if none fits it throws. An overload set dispatches to the handler with the argument's type and ignores other types.",
[I,PR],"all dynamic types of the instantiated class hierarchy (single, multiple inheritance) and handler orders",
"match_test.cc covers two types in one order",
["match.h","overloaded.h"],[("match","include/utl/match.h"),("overloaded","include/utl/overloaded.h")])

p("C34","The thread pool runs every job of every batch exactly once and never hangs",
"For every schedule, executing a batch of n jobs calls the job function on the workers exactly once with each index 0..n-1 and returns only after all calls have finished; jobs of one batch may wait for each other as long as no more than the number of workers do. Batches can follow each other without mixing, the initialiser runs once on each worker before its first job and the finaliser once after its last, and construction, execution and destruction never deadlock or lose a wake-up, with any number of workers from one.",
[S,H],"all interleavings (at synchronisation operations, with spurious wake-ups) of the stated number of workers, batches and jobs",
"no unit test covers the pool; stress runs only sample schedules",
["thread_pool.h"],[("worker loop","include/utl/thread_pool.h: thread_pool::thread_pool"),("execute","include/utl/thread_pool.h: thread_pool::execute")],
state=[dict(name="counter_",meaning="next job index",where="include/utl/thread_pool.h"),dict(name="threads_active_",meaning="workers in the current batch",where="include/utl/thread_pool.h")])

p("C35","Parallel for runs each job once and reports errors with the failing index",
"For every schedule and every set of failing jobs, parallel-for without errors calls the function exactly once per index/element before returning. With the continue strategy it still calls every job once and returns exactly one error entry per failing job, carrying that job's index and exception; with the quit strategy it rethrows one of the errors that occurred, no job runs twice and no new job is started once the failing thread has stopped, and jobs may wait for each other as long as no more than the number of threads do. Progress is reported once per successful job, and an exception from the progress callback counts as an error of its job.",
[S,F],"all interleavings at synchronisation operations of the stated number of threads and jobs, all subsets of failing jobs",
"no unit test covers it",
["parallel_for.h"],[("parallel_for_run","include/utl/parallel_for.h: parallel_for_run")])

p("C36","Progress output stays inside its bounds and notifies exactly on change",
"For every configuration with finite bounds and every sequence of updates by one thread, the reported progress is a number (never NaN) within the configured output bounds, is the low bound at input 0 and the high bound at input >= maximum (if the range is a multiple of the step; a maximum of 0 counts as reached), does not decrease when the input does not decrease, and the callback runs exactly when the reported value changed. Monotonic updates never move the input backwards.",
[I,H],"all bounds, steps, maxima and update values in the stated ranges and update sequences within the stated length",
"progress_tracker_test.cc (not built offline) has one scripted sequence",
["progress_tracker.h","src/progress_tracker.cc"],[("update_out","src/progress_tracker.cc: progress_tracker::update_out"),("update_monotonic","src/progress_tracker.cc")])

p("C37","Chained tracker updates apply all changes and notify exactly once",
"For every chain of setting changes, all settings take effect, the callback runs exactly once at the end of the chain if any of its steps changed a setting and not at all otherwise, after the lock is released, and changing a bound resets input and output. Named trackers are created once and shared; activation returns the active tracker and asking for it without one throws.",
[I,H],"all chains of settings within the stated length and all activation histories within the bound",
"progress_tracker_test.cc (not built offline) has fixed chains",
["progress_tracker.h","src/progress_tracker.cc"],[("tracker_update","src/progress_tracker.cc: tracker_update::~tracker_update"),("registry","src/progress_tracker.cc: get_tracker_unsafe")])

p("C38","Verification helpers throw exactly when the condition is false",
"For every condition, the verify helpers do nothing if it holds and otherwise throw exactly once: the plain, silent and macro forms a runtime error carrying the formatted message, the exception form the exception that was passed in. The plain and macro forms also write that message to the log stream as one line with the UTC time; otherwise nothing is written.",
[I],"both outcomes, all call forms",
"tests do not exercise the failing side of every form",
["verify.h"],[("verify","include/utl/verify.h")])

p("C39","Bit iteration visits exactly the set bits in ascending order",
"For every value of every unsigned integer type, iterating the set bits calls back exactly once for each set bit, in ascending order, and testing a single bit agrees with it.",
[I],"all values of 8-, 16-, 32- and 64-bit types",
"no unit test covers it",
["for_each_bit_set.h"],[("for_each_set_bit","include/utl/for_each_bit_set.h")])

p("C40","Container conversion helpers produce exactly the transformed elements",
"For every container, conversion to a vector, set or given output applies the function once per element in order and returns exactly those results; concatenation appends all elements of the second container unchanged, and repeating yields n copies. A source that is not handed over keeps its elements.",
[I],"all contents within the stated length bound, container and iterator forms",
"no unit test covers these helpers",
["to_vec.h","to_set.h","concat.h","repeat_n.h"],[("to_vec/transform_to","include/utl/to_vec.h"),("to_set","include/utl/to_set.h")])

p("C41","Whole-collection algorithms equal their definition",
"For every collection, the range versions of all/any/none-of, find, find-if, count-if, sort, nth-element, is-sorted, fill, equal, min- and max-element return what the definition over the whole collection says and modify nothing else.",
[I],"all contents within the stated length bound and all predicate thresholds",
"no unit test covers these wrappers",
["helpers/algorithm.h"],[("wrappers","include/utl/helpers/algorithm.h")])

p("C42","Printable enums print the name of the enumerator",
"For every enumerator of a printable enum (declared without explicit values), the string form is exactly its declared name, whatever the name lengths and the spacing in the declaration, and printing it to a stream writes the same name.",
[I,PR],"all enumerators of the instantiated enums",
"printable_enum.cc has one enum",
["printable_enum.h"],[("as_string","include/utl/printable_enum.h")])

p("C43","Reading a whole file or its lines from a stream returns exactly the contents",
"For every file, reading it completely yields exactly its bytes, or no value if it cannot be read (missing, a directory); the name '-' reads standard input. Iterating the lines of a file calls back once per newline-separated line, in order and without the newline, the last line with or without one.",
[I,F],"all file contents",
"no unit test covers it",
["read_file.h","for_each_line_in_file.h"],[("read_file","include/utl/read_file.h"),("for_each_line_in_file","include/utl/for_each_line_in_file.h")])

p("C44","Compile-time column names equal the literal they were written as",
"A string literal of up to 30 characters used as a column or flag name is available at run time with exactly the characters of the literal, followed by a terminating NUL.",
[PR],"all lengths 0 to 30 and all positions, with distinct characters at every position",
"only the literals in the tests are covered",
["const_str.h"],[("STRING_LITERAL","include/utl/const_str.h")])

p("C45","Logging and timing print one well-formed line per event",
"Each log statement made in one expression writes exactly one line with level, UTC time stamp, source file and line, and the message exactly as streamed, and flushes it, whatever the message. Scoped and manual timers log one line at start, at every print and at the end, with their name and the elapsed milliseconds; the timing macros return the elapsed whole milliseconds and microseconds.",
[I],"all messages and elapsed times within the stated bounds, time stamps of years up to 9999, one thread",
"no unit test covers it",
["logging.h","timer.h","timing.h","src/timer.cc"],[("log","include/utl/logging.h"),("scoped_timer","src/timer.cc")])

p("C46","Progress bars print one correct line per tracker and redraw in place",
"Unless progress output is silent (then nothing is written at all), every print moves the cursor up by exactly the number of lines printed last and writes one cleared line per tracker in order of name: the right-aligned name, 55 bar cells of which cell i is filled exactly if floor(i*100/55) does not exceed the reported progress, the whole-number percentage and the status if there is one, or just name and status if progress is hidden, and then flushes. A progress bar scope switches output on or off as requested and on leaving restores the previous setting and forgets all trackers and the active one.",
[I,H],"all progress values, statuses and sequences of print/clear/scope operations within the stated bounds",
"progress_tracker_test.cc (not built offline) checks no output",
["progress_tracker.h","src/progress_tracker.cc"],[("print","src/progress_tracker.cc: global_progress_trackers::print"),("scope","src/progress_tracker.cc: global_progress_bars")],
state=[dict(name="last_print_height_",meaning="lines of the last print",where="include/utl/progress_tracker.h")])

p("C47","Concurrent progress updates lose nothing and end at the final value",
"For every schedule of several threads updating one tracker, no increment is lost, a monotonic update never moves the input backwards and the input ends at the sum respectively the maximum of the updates, and once all updates have returned the reported progress is the one that belongs to the final input. Concurrent creation and activation of named trackers creates each name once, a chain of settings is applied as a whole, and updates, status and visibility settings, printing, activation and clearing from several threads neither race nor deadlock.",
[S],"all interleavings at atomic and lock operations of the stated threads and updates",
"no unit test updates from several threads",
["progress_tracker.h","src/progress_tracker.cc"],[("update_monotonic","src/progress_tracker.cc"),("update_out","src/progress_tracker.cc: progress_tracker::update_out"),("registry lock","src/progress_tracker.cc: get_tracker")])

p("C48","Flag help and flag listing show every flag once with its name and value",
"The help text and the listing of flag values contain exactly one line per declared flag in declaration order, with its long name right-aligned to 14 columns if it has one, its short name (or two blanks), a star exactly for required flags, and the description respectively the current value (booleans as true/false), separated by single line breaks.",
[I,PR],"all flag values within the stated bounds for the instantiated flag structs",
"cmd_line_parser_test.cc (not built offline) compares one text",
["cmd_line_parser.h"],[("description","include/utl/cmd_line_parser.h: description"),("print_flags","include/utl/cmd_line_parser.h: print_flags")])

p("C49","Naming a thread names exactly that thread",
"Setting the name of a thread gives that thread, and no other one, exactly the given name, and setting the current thread's name names the calling thread, for every name of up to 15 characters.",
[I,S],"all names within the stated bound",
"no unit test covers it",
["set_thread_name.h"],[("set_thread_name","include/utl/set_thread_name.h"),("set_current_thread_name","include/utl/set_thread_name.h")])
