"""The list of properties: the single source of properties.jsonl and MANIFEST.json (tools/mkdocs.py)."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, level='model_checking', technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, level=level, technique=technique, note=note, state=state or []))
TECH = 'TLA+ specification model-checked with TLC; behaviours evaluated by TLC replayed on the code and compared step by step'

p('C01', 'Thread distances and similarities are the documented measures',
  'For any two threads of the same type and either order of arguments, the Levenshtein (Damerau, adjacent transpositions), Jaccard and Jaro-Winkler measures equal their definitions over the frames, where two frames match exactly when they count as the same function for that type (unknown functions match nothing). Distances are 0 for identical fully-known threads and symmetric, and every measure stays in its documented range. The comparison never changes the threads.',
  ['inputs'], 'all pairs of threads of each of the seven types, of any length, with any mixture of known, unknown and equal frames',
  'Tests compare a dozen fixed pairs; the dynamic programme, the matching windows and per-type frame matching have many more cases (lengths, repetitions, unknown names, 64-bit values).',
  ['lib/distance.c', 'lib/generic_frame.c', 'lib/*_frame.c'], [('sr_distance', 'lib/distance.c'), ('sr_frame_cmp_distance', 'lib/generic_frame.c')], 'sr_distance() results for every measure, both orders, and the threads afterwards',
  note='TLC checks the recurrence against independent definitions on all short threads, then gives the exact value for generated pairs of all seven types; the code must agree to 1e-6. One documented finding (Jaro-Winkler with repeated frames) is listed.')
p('C02', 'Splitting distance computation into parts changes nothing',
  'A distance matrix split into any number of parts, computed part by part in any order, and merged in any order equals the matrix computed at once. Every pair of threads is covered by exactly one part, the parts differ in size by at most one, and merging is refused when a part was not computed, belongs to a matrix of another size, or was computed from threads of other lengths.',
  ['inputs', 'histories'], 'all numbers of threads (m by n matrices) and of parts, and all orders of computing and merging, including parts that were not computed or belong to another job',
  'Tests try one split; the arithmetic of part borders and the rejection of parts that do not belong together depends on m, n, the number of parts and the order.',
  ['lib/distance.c'], [('sr_distances_part_create / _compute / sr_distances_merge_parts', 'lib/distance.c')], 'borders of the parts, results of computing and merging, every cell of the merged matrix',
  note='TLC enumerates matrices up to the bound and checks coverage and merge laws; scripts (create, compute in any order, skip computing, use other threads, mix jobs, merge) are replayed on the code with exact comparison.')
p('C03', 'Clustering always merges closest clusters; cuts are partitions',
  'Clustering a distance matrix yields a dendrogram in which every merge joins two clusters whose average distance is minimal at that moment and whose recorded level is that average distance, and whose leaf order is a permutation of the objects. Cutting a dendrogram at any level gives clusters of at least the requested size, disjoint, made exactly of the neighbouring objects joined below that level.',
  ['inputs'], 'all distance matrices (with ties) and all cut levels and minimum sizes',
  'Tests cover two matrices; ties, chains of merges and levels equal to the cut only appear in particular matrices.',
  ['lib/cluster.c'], [('sr_distances_cluster_objects', 'lib/cluster.c'), ('sr_dendrogram_cut', 'lib/cluster.c')], 'order and levels of the dendrogram; clusters of every cut',
  technique='TLA+ specification model-checked with TLC; recorded clusterings validated as behaviours of the specification (ties are nondeterministic), cuts replayed exactly',
  note='Trace validation: TLC decides whether the recorded dendrogram is explained by some sequence of minimal merges; cuts are compared exactly.')
p('C04', 'Editing histories act on exactly what they name; copies are independent',
  'Any sequence of appending, removing, truncating, limiting, selecting, copying and freeing of stack traces, threads and frames of every type leaves exactly the frames and threads it should, in order and with every field intact, and reports success exactly when the named frame was there. A copy is equal to its original in every field, including which thread crashed, and later changes or destruction of either never show in the other.',
  ['histories', 'inputs'], 'all sequences of public editing operations on all seven types of stack traces',
  'Tests call each operation once on one or two frames; aliasing between copies, first/middle/last positions and long sequences are not reached.',
  ['lib/generic_thread.c', 'lib/generic_stacktrace.c', 'lib/generic_frame.c', 'lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c'], [('dup / remove / append / limit functions', 'lib/*_thread.c, lib/*_frame.c, lib/*_stacktrace.c')], 'complete dumps of every live object after every operation (under AddressSanitizer)',
  note='TLC explores all short histories and checks frame conditions; random longer histories over seven types are evaluated by TLC and replayed with a full dump of the heap after each step.')
p('C05', 'Normalization removes exactly the frames that say nothing',
  'Normalizing a gdb, core or kernel oops thread strips the known prefixes and suffixes, gives processor-specific variants of C library functions their plain name, drops everything down to the last exit frame, drops known noise frames (with what is above them where that is the rule), drops null-call frames at either end, and merges consecutive repetitions of one function; nothing else is dropped, reordered or changed. Home directories in core frames are anonymized; threads of other types are left alone. Pairing unknown functions of two threads renames only functions unknown in both with equal neighbours.',
  ['inputs'], 'all threads over all functions of the tables and their source files, and near misses',
  'Tests check a few entries of tables with hundreds; each entry has its own file pattern, and rules interact (prefix stripping before lookup, order of passes).',
  ['lib/normalize.c', 'lib/normalize_hash.gperf'], [('sr_normalize_gdb_thread, sr_normalize_core_thread, sr_normalize_koops_stacktrace', 'lib/normalize.c')], 'the thread after normalization, frame by frame',
  note='Laws are model-checked on all short threads over frames of every kind; every table entry, with matching, non-matching and missing files and altered names, is evaluated by TLC and replayed. The tables in the specification are the reference.')
p('C06', 'The crashed thread and frame are found by the documented rules',
  'For a gdb stack trace the crashed thread is the one with the recorded thread id, else the only thread whose top frame is the crash frame\'s function, else the only one of these with an exit frame, else the least of them by content; for a core stack trace the marked thread, else the one with an exit frame; a single thread is always the crashed one. The order of threads does not matter beyond these rules, finding never changes the stack trace, and normalization keeps the answer.',
  ['inputs'], 'all stack traces with any number of threads, ids, exit frames and equal top frames',
  'Tests have one or two thread layouts per rule.',
  ['lib/gdb_stacktrace.c', 'lib/core_stacktrace.c', 'lib/normalize.c'], [('sr_gdb_stacktrace_find_crash_thread, sr_core_stacktrace_find_crash_thread, exit frame search', 'lib/gdb_stacktrace.c, lib/core_stacktrace.c, lib/normalize.c')], 'index of the crashed thread, exit frames, crash frame, before and after normalization',
  note='All small stack traces model-checked; generated ones replayed.')
p('C07', 'Duplication hashes depend on exactly the significant frames',
  'The duplication hash of a thread is the SHA-1 of the given prefix and the identifying text of the first n frames that have one, taken from a normalized copy unless normalization is switched off; zero means all frames. The text of a frame uses the first identification available for its type (e.g. build id and offset, else function, else fingerprint, else address), and the kernel-oops compatible mode skips unreliable frames without counting them and gives no hash for an empty result. Hashing never changes the thread and is repeatable.',
  ['inputs', 'histories'], 'all threads of all types, all limits, prefixes and flag combinations, and repeated hashing',
  'Tests pin a handful of hashes; each flag, limit and absent field changes the text.',
  ['lib/generic_thread.c', 'lib/*_frame.c'], [('sr_thread_get_duphash, frame_append_duphash_text', 'lib/generic_thread.c, lib/*_frame.c')], 'hash text, hash, and the thread afterwards',
  note='Prefix, limit and normalization laws model-checked; text compared exactly, SHA-1 of the specified text computed with hashlib.')
p('C08', 'Backtrace hashes list every recorded field in its place',
  'The backtrace hash of a stack trace is the SHA-1 of its text: the header of its type, then for each thread its heading and one line per frame with the listed fields in order, threads separated by a blank line. Absent values are written as unknown, numbers exactly (64-bit addresses included), and two stack traces that differ in a listed field have different texts. Hashing never changes the stack trace.',
  ['inputs'], 'all stack traces of all types with every field present, absent or extreme',
  'Tests pin one text per type.', ['lib/generic_stacktrace.c', 'lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c'], [('sr_stacktrace_get_bthash', 'lib/generic_stacktrace.c')], 'text, hash, and the stack trace afterwards',
  note='Every single-field change of a base frame and stack trace of each type, and generated ones, compared exactly.')
p('C20', 'Comparisons are consistent orders that agree with equality',
  'Comparing frames, threads and stack traces of one type gives zero exactly when they agree in every field that identifies them, is antisymmetric and transitive, and handles absent, 32-bit and 64-bit extreme values. A thread that is a prefix of another sorts consistently, and similarity used for distances is symmetric. Comparing never changes what is compared.',
  ['inputs'], 'all pairs and triples of frames and threads of each type with absent and extreme values',
  'Tests compare a few hand-made pairs; order laws quantify over triples and overflow only appears with large values.',
  ['lib/*_frame.c', 'lib/*_thread.c', 'lib/generic_frame.c'], [('sr_*_frame_cmp, sr_*_thread_cmp', 'lib/*_frame.c, lib/*_thread.c')], 'signs of all comparisons',
  technique='TLA+ specification model-checked with TLC; recorded comparisons of the code validated against the specified equality and order laws',
  note='The direction of single fields is not judged, equality and the order laws are.')
p('C24', 'Texts shown to people list the right frames, names and places',
  'The short text of a stack trace numbers the frames of the crashed thread from the top, at most as many as asked for (for gdb: of the normalized thread without main and unnamed frames), each with the function, file, line, module or marks recorded for it; without a crashed thread there is none. The reason sentence names the program and signal, exception and place, or the faulting function and module. Full gdb text and lists of functions contain every frame once, and lists of functions read back as the same functions and libraries.',
  ['inputs'], 'all stack traces of all types, all limits', 'Tests pin one text per type.',
  ['lib/generic_stacktrace.c', 'lib/gdb_stacktrace.c', 'lib/gdb_thread.c', 'lib/java_thread.c', 'lib/*_frame.c', 'lib/*_stacktrace.c'], [('sr_stacktrace_to_short_text, sr_stacktrace_get_reason, sr_frame_append_to_str, sr_gdb_stacktrace_to_text, sr_gdb_thread_format_funs', 'lib')], 'the texts',
  note='Generated stack traces; texts compared exactly.')
p('C26', 'Addresses are attributed to the module that covers them',
  'Listings of shared libraries (gdb) and of modules (eu-unstrip) are read line by line into ranges, names, build ids and symbol states, lines of another form being skipped or ending the list without reading past the input. An address belongs to the first entry whose range covers it (inclusive end for libraries, exclusive for modules), and to none otherwise or when unknown. Frames get the base name of their library cut after ".so", and an optimized thread keeps only the first named, normalized frames other than main.',
  ['inputs'], 'all listings, ranges (touching, overlapping, empty, at the ends of the address space), addresses and names',
  'Tests read one listing each and look up two addresses.',
  ['lib/gdb_sharedlib.c', 'lib/unstrip.c', 'lib/gdb_thread.c'], [('sr_gdb_sharedlib_parse, sr_gdb_sharedlib_find_address, sr_unstrip_parse, sr_unstrip_find_address, sr_gdb_thread_set_libnames, sr_gdb_thread_get_optimized', 'lib')], 'parsed lists, index found for each address, frames after naming',
  note='Reading back what is written is model-checked; generated and damaged listings replayed under AddressSanitizer with exact-size buffers.')
p('C27', 'Quality ratings are the share of understood frames',
  'The rating of a gdb thread is the share of its frames that are signal handlers or have both a known function and a source file, that of a Java thread the share of native frames and frames with a file; an empty thread rates 1 and a stack trace with no frames 0. The overall gdb rating weighs the normalized stack trace, the crashed thread and its top frames 5:7:8, and rating never changes the stack trace.',
  ['inputs'], 'all gdb and Java stack traces', 'Tests rate two stack traces.',
  ['lib/gdb_thread.c', 'lib/gdb_stacktrace.c', 'lib/java_thread.c'], [('sr_gdb_thread_quality, sr_gdb_stacktrace_quality_simple, sr_gdb_stacktrace_quality_complex, sr_java_thread_quality', 'lib')], 'ratings to 2e-6 and the stack trace afterwards',
  note='Bounds and monotonicity model-checked; every pattern of good and bad frames up to length 7 and generated stack traces replayed.')
p('C15', 'Stack traces survive their JSON form; damaged documents are refused',
  'The JSON form of a core, kernel oops, Java, Python, Ruby or JavaScript stack trace is valid JSON listing every thread, frame and field that differs from its default, whatever characters and numbers they contain. Reading it back gives an equal stack trace, save for what the form has no place for (the reason of a kernel oops, lines of files without a name, an unmarked crash thread which becomes the first). When reading, unknown keys are ignored, missing ones keep their defaults, and a value of the wrong type at any place that is read refuses the whole document with a message naming it, whether or not the caller asks for the message.',
  ['inputs'], 'all stack traces of the six types with any texts and 32/64-bit numbers, and all JSON documents',
  'Tests read one or two documents per type; characters that need escaping, large numbers, empty lists and wrong types at each place are not sampled.',
  ['lib/json_utils.c', 'lib/*_stacktrace.c', 'lib/*_thread.c', 'lib/*_frame.c', 'lib/js_platform.c'], [('sr_stacktrace_to_json, sr_stacktrace_from_json, sr_stacktrace_from_json_text', 'lib/generic_stacktrace.c, lib/*_stacktrace.c')], 'the document written (strict JSON), the stack trace read back, the error message',
  note='Round trip, unknown keys, null values and dropped keys model-checked over traces whose frames differ in up to two fields; generated traces, documents and every wrong type at every place of a full document replayed.')
p('C16', 'uReports survive their JSON form; damaged ones are refused',
  'A report of any supported type is written as one valid JSON document with its version, a reason sentence, the reporter, the operating system, the problem (type, component, user, serial number and the whole stack trace), the packages in order (an empty list if there are none) and the authentication entries in order, whatever texts and numbers these contain and whichever parts are missing. Reading it back gives an equal report, except that kernel oopses carry no user and gdb traces are not sent. When reading, unknown keys are ignored, missing parts keep their defaults, the optional desktop, variant and authentication entries that are not text are skipped, and any other value of the wrong type refuses the whole report with a message; success leaves no message behind.',
  ['inputs'], 'all reports and all JSON documents', 'Tests read and write two reports; every optional part, text that needs escaping and wrong types at each place multiply.',
  ['lib/report.c', 'lib/operating_system.c', 'lib/rpm.c', 'lib/json_utils.c'], [('sr_report_to_json, sr_report_from_json_text', 'lib/report.c'), ('sr_operating_system_to_json / _from_json', 'lib/operating_system.c'), ('sr_rpm_package_to_json / _from_json', 'lib/rpm.c')], 'the document written (strict JSON), the report read back, the error message',
  note='Round trip and refusal of nulls model-checked over reports built field by field; generated reports of all types, documents in any key order, and every wrong type at every place of full reports replayed.')
p('C17', 'Package records are ordered, merged, named and looked up faithfully',
  'Comparing packages by name-version-release, by name-epoch-version-release-architecture, or fully (also install time and the whole consistency record) is a total order for all values, including missing texts and numbers of any size; the coarser order decides first. Sorting a list (also the empty one) keeps exactly the same packages, in nevra order. Removing duplicates merges neighbouring records of the same package (architecture may be missing in one), keeping the architecture, install time and role of the first that knows it, and loses no package. A record and a list (also an empty one) are written as valid JSON and read back equal but for the consistency record. Name-version-release and name-[epoch:]version-release.architecture texts are split at the last two dashes (and last dot); texts with an empty part or an epoch that is not a 32-bit number are refused and leave nothing behind. In a dso_list every line stands for itself: a well-formed line, also the last one without newline, gives one package with its install time; other lines are skipped. Looking packages up by name or path gives one record per header found (epoch 0 if it has none), and nothing but an error if one of them is incomplete.',
  ['inputs'], 'all packages, lists, texts and databases', 'Tests compare, sort and parse a few examples; ties, missing fields, extreme numbers, malformed text and database contents have no end.',
  ['lib/rpm.c', 'lib/abrt.c'], [('sr_rpm_package_cmp*, _sort, _uniq, _to_json, _from_json, _parse_nvr, _parse_nevra, _get_by_name, _get_by_path', 'lib/rpm.c'), ('sr_abrt_parse_dso_list', 'lib/abrt.c')], 'comparison signs, lists, texts, packages parsed',
  note='The RPM database is replaced by stand-ins that serve the headers of the case (real headers, no real database). MCRpm and MCRpmText check the specification itself.')
p('C18', 'A problem directory becomes the report its files describe, or is refused',
  'The type file decides by its prefix (CCpp, Python, Kerneloops, JavaScript, Java, Ruby) which stack trace is read and from which file, by the same rules as for that format alone; other types give a report without one. The report carries the count as serial number, the operating system (os_info, else os_release), the architecture, the desktop from the DESKTOP_SESSION variable itself, the component (for a packaged program its component file, otherwise the name of the executable with -unpackaged), for packaged programs the affected package with exactly one affected role, the merged packages of the shared objects and the interpreter. A directory is refused, with an error message and no report, exactly when its type, operating system, architecture, count, package data (if packaged), dso_list (if there) or stack trace is missing, unreadable or malformed; missing or unreadable optional files neither refuse nor leave an error message.',
  ['inputs', 'faults'], 'all problem directories', 'Tests read one directory; each file may be missing, unreadable or malformed in combination with each other.',
  ['lib/abrt.c', 'lib/operating_system.c', 'lib/rpm.c'], [('sr_abrt_report_from_dir, sr_abrt_operating_system_from_dir, sr_abrt_rpm_packages_from_dir, sr_abrt_type_from_type', 'lib/abrt.c')], 'the report built or the refusal',
  note='Unreadable means a directory of that name; the stack trace expected is what the same reader finds in the text alone (checked by the properties of the formats).')
p('C19', 'The operating system is identified from its release texts',
  'From an os-release text the name is the last ID, the version is the first VERSION_ID or rawhide if a VERSION mentions (Rawhide) (whatever the order of lines), cpe and variant are CPE_NAME and VARIANT_ID; quotes vanish and a backslash makes the next character ordinary; comments, lines without an equals sign or without a key, unknown keys and a missing last newline change nothing; the text identifies a system exactly when name and version are known. From a system-release text the name is what precedes " release " in lower case (rhel for Red Hat Enterprise Linux) and the version the digits and dots after it, or everything if there are none; without " release " or without a name it is refused.',
  ['inputs'], 'all texts', 'Tests try a handful of well-formed files; order of lines, quoting and truncation are free.',
  ['lib/operating_system.c', 'lib/utils.c'], [('sr_operating_system_parse_etc_os_release, sr_operating_system_parse_etc_system_release', 'lib/operating_system.c'), ('sr_parse_os_release', 'lib/utils.c')], 'fields of the operating system')
p('C11', 'A Python stack trace is read as it is written',
  'From a Python traceback (after the "Traceback (most recent call last):" header wherever it is, or for a syntax error after "invalid syntax (") every frame is read with its file, line number, function and source line, the last call first; <name> files and functions are marked special and stripped of the brackets, a frame without a function is the special function "syntax", home directories are anonymized, lines of ^ and ~ marks and source lines that are missing change nothing, and the exception name is what follows the frames up to a colon or the end of line. Without header, without frames or without exception name the text is refused with a message. Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read a few files; names, numbers, missing source lines, truncation are free.',
  ['lib/python_stacktrace.c', 'lib/python_frame.c', 'lib/utils.c'], [('sr_python_stacktrace_parse', 'lib/python_stacktrace.c'), ('sr_python_frame_parse', 'lib/python_frame.c')], 'the stack trace read or the refusal; memory accesses')
p('C12', 'A Java stack trace is read as it is written',
  'From a Java stack trace (with or without the name of the thread) every exception of the chain of causes is read with its name and message, and its frames with method, file, line number, class path ([file:..], [jar:file:..!..], [jar:http:..], [http:..]), native methods and unknown sources, the innermost exception first; home directories are anonymized; suppressed exceptions and "... n more" lines are left out wherever they stand, with the causes after them kept; blank lines and a missing last newline change nothing; a line number that does not fit 32 bits is unknown. A thread name without its end and an exception without a name are refused with a message. Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read a few files; the nesting of causes and suppressed exceptions, names, numbers, truncation are free.',
  ['lib/java_frame.c', 'lib/java_thread.c', 'lib/java_stacktrace.c', 'lib/utils.c'], [('sr_java_frame_parse_exception, sr_java_frame_parse', 'lib/java_frame.c'), ('sr_java_thread_parse', 'lib/java_thread.c')], 'the stack trace read or the refusal; memory accesses')
p('C13', 'A Ruby stack trace is read as it is written',
  'From a Ruby stack trace every frame is read with its file (which may contain colons), line number, function, number of rescue levels and block levels ("block in" one, "block (N levels) in" N), in the order written; functions such as <main>, <top (required)> and <class:X> are marked special and stripped of the brackets, operator methods such as <=> and << are functions like any other; the exception name is what stands in the last parentheses of the message, whatever else the message contains; home directories are anonymized; the last newline may be missing. A line that is no frame, a frame without file, line number or function, numbers that do not fit 32 bits, or a message without exception name make the text refused with a message. Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read a few files; names, numbers, messages, truncation are free.',
  ['lib/ruby_stacktrace.c', 'lib/ruby_frame.c', 'lib/utils.c'], [('sr_ruby_stacktrace_parse', 'lib/ruby_stacktrace.c'), ('sr_ruby_frame_parse', 'lib/ruby_frame.c')], 'the stack trace read or the refusal; memory accesses')
p('C14', 'A JavaScript stack trace is read as it is written',
  'From a V8 stack trace the exception name is what precedes ": ", the message is left out whatever it contains, and every frame is read with its function (first word before the parenthesis, none if there is no parenthesis), file, line and column, in the order written; places are read from their end, so that file names may contain colons, spaces and parentheses; home directories are anonymized; spaces at the ends of lines and a missing last newline change nothing. A text without exception name or frame lines that are no frame (no line or column, or numbers that do not fit 32 bits) are refused with a message. Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read a few files; names, numbers, messages, truncation are free.',
  ['lib/js_stacktrace.c', 'lib/js_frame.c', 'lib/utils.c'], [('sr_js_stacktrace_parse_v8', 'lib/js_stacktrace.c'), ('sr_js_frame_parse_v8', 'lib/js_frame.c')], 'the stack trace read or the refusal; memory accesses')
p('C10', 'A kernel oops is read as it is written',
  'From the text of a kernel oops the reason is the first line, the raw oops the whole text, the taint flags are the letters after the first "Tainted: ", and the modules are the names after the first "Modules linked in:" (continued on further lines until a line with a timestamp, Pid:, CPU, CR2: or irq event stamp, with a name broken at the end of a line joined). Every line that is a frame in its entirety, with or without timestamp, is read in the order written: address, reliability (no question mark, no "(unreliable)"), function with offset and length, module, and the "from" address and function, in the forms of x86, PowerPC and ARM; the frame of the first RIP or EIP line comes first. Frames between <IRQ>, <NMI> ... and <EOI> or <<EOE>> carry the special stack. All other lines change nothing, nothing is read after "Last Breaking-Event-Address:". Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read some thirty oopses; the order of lines, timestamps, forms of frames, malformed lines and truncation are free.',
  ['lib/koops_stacktrace.c', 'lib/koops_frame.c', 'lib/utils.c'], [('sr_koops_stacktrace_parse, parse_taint_flags, parse_IP, sr_koops_stacktrace_parse_modules', 'lib/koops_stacktrace.c'), ('sr_koops_frame_parse', 'lib/koops_frame.c')], 'the stack trace read; memory accesses')
p('C09', 'A backtrace by gdb is read as it is written',
  'From the text of a gdb backtrace the crash frame is the frame before the first thread (none if a thread comes first), the threads are those that follow, with number and LWP of their header, and the frames of each are those written, in order: number, address (none for inlined frames), function name with C++ templates, operators, anonymous namespaces and const, the type before it, source file and line, or a signal handler; a shared object is no source file. Parameters are skipped whole, whatever their strings, characters and parentheses, variables are skipped up to the next frame or thread; shared libraries are read wherever they are listed. Reading ends at the first thread or frame that is none; text without a frame is refused with a message. Reading stays within the text.',
  ['inputs'], 'all texts', 'Tests read eleven backtraces and some forty frames; names, parameters, order, malformed frames and truncation are free.',
  ['lib/gdb_frame.c', 'lib/gdb_thread.c', 'lib/gdb_stacktrace.c', 'lib/gdb_sharedlib.c', 'lib/utils.c'], [('sr_gdb_stacktrace_parse, sr_gdb_stacktrace_parse_header', 'lib/gdb_stacktrace.c'), ('sr_gdb_thread_parse', 'lib/gdb_thread.c'), ('sr_gdb_frame_parse_header, sr_gdb_frame_parse_function_name, sr_gdb_frame_skip_function_args', 'lib/gdb_frame.c')], 'the stack trace read; memory accesses')
p('C22', 'The scanner accepts exactly what it names and always knows where it is',
  'Every primitive the readers are made of (skip/parse of a character, of characters of a set or not of a set, of a string, of decimal and hexadecimal numbers of 32 and 64 bits, of white space, to the next line; the searches for a character or string) accepts the longest text it names at the position, returns its length and value, and moves exactly past it; if there is none, or the number does not fit its type, it changes neither position nor result. It never passes the end. The lines (from 1) and columns (from 0) it tells, added up over any sequence of steps, are those of the position. Indenting, joining paths, hexadecimal output, removing adjacent duplicates, hiding the owner of a home directory and comparing locations give what their names say for every text; a file written is what is read, and a failure to open is reported.',
  ['inputs', 'histories'], 'all texts of bytes and all sequences of steps', 'Tests call each primitive on a handful of strings, none at the end of an exact buffer, and never in sequence.',
  ['lib/utils.c', 'lib/location.c'], [('sr_skip_char_limited, sr_parse_char_span, sr_parse_uint32, sr_parse_uint64, sr_strstr_location, sr_indent, sr_file_to_string', 'lib/utils.c'), ('sr_location_add, sr_location_eat_char, sr_location_cmp', 'lib/location.c')], 'results, positions and locations; memory accesses')
p('C21', 'Python methods see lists and objects as they are when called; refusals are clean',
  'Any sequence of operations of the Python module on stack traces, threads, frames, libraries, packages, operating systems, reports, distance matrices and their parts has the effect that the lists and attributes, as they are at the time of each call, call for: methods see frames, threads, libraries and packages exactly as their lists hold them when called, in order; copies share nothing with the original; changing one object changes no other; an object lives as long as a variable or a list refers to it, and is referred to exactly that often. What does not fit (an object of another class, the same object twice, a value of the wrong type or out of range, text with a null character) is refused with an exception and changes nothing. Everything an object writes, compares, hashes, measures or reads means the same as in the library, and no sequence of operations reads or writes memory that is not there.',
  ['histories', 'inputs'], 'all sequences of operations that a Python program can apply to objects of the module, and all values it can pass', 'Tests edit a list once and look at one method; objects shared by lists, removed while in use, assigned twice or of the wrong class, reference counts and the life time of objects show only in longer histories.',
  ['python/*.c'], [('frames_prepare_linked_list and its kin, getters and setters', 'python/py_common.c, python/py_base_thread.c, python/py_base_stacktrace.c'), ('methods of every class', 'python/py_*.c')], 'what every call returns or raises; in the end every attribute, list, link and reference count of every object; memory accesses')
p('C23', 'A core stack trace tells for each thread of a dead process where it was',
  'For every core dump, of any executable and libraries, any number of threads and any contents of the stack: the core stack trace has the threads of the dump in order with their ids, the first of them the crash thread; signal is the first one of a thread that is not zero; frames of a thread are the calls found by following its stack, from where it was to its start, without __libc_start_main and what is below, and of more than 256 only the oldest 256. Each frame has its address and of the module that contains the call (the address for the top frame, the byte before a return address otherwise): file, build id, offset of the address from where it is loaded, and demangled function; where no module is, the address only. The same looks up the addresses of frames printed by gdb (without signal handlers, crash thread as found in the text), in the dump or in a listing of modules. What is no core dump, or has no modules, is refused with a message. The same trace results from looking at a process as it dies (kernel hook, one thread; it may be refused if its stack cannot be followed to the start), and is what is written into a problem directory.',
  ['inputs'], 'all core dumps and gdb texts', 'Tests read one stored dump and texts with two threads; none has an address at a bound, a stack deeper than 256, or a process that dies.',
  ['lib/core_unwind.c', 'lib/core_unwind_elfutils.c', 'lib/core_stacktrace.c', 'lib/unstrip.c', 'lib/abrt.c'], [('resolve_frame, get_signal_number, open_coredump, sr_core_stacktrace_from_gdb', 'lib/core_unwind.c'), ('frame_callback, truncate_long_thread, sr_parse_coredump, sr_core_stacktrace_from_core_hook', 'lib/core_unwind_elfutils.c'), ('sr_core_stacktrace_create', 'lib/core_stacktrace.c'), ('create_core_stacktrace', 'lib/abrt.c')], 'threads, frames, signal, crash thread, refusals; core_backtrace file')
p('C25', 'The command line tool does what it is told, or says why not and does nothing',
  'For every list of arguments and every contents of problem directories and files, one after another: abrt-print-report-from-dir prints exactly the JSON of the report the directory describes; abrt-create-core-stacktrace puts the core stack trace made of the core dump and executable into core_backtrace of that directory (which later reports then have) and prints nothing; debug duphash prints the text of the duplication hash (normalized, 3 frames, optional component) of the crash thread found in the file read as the named type, and its SHA-1. The status is 0 exactly if that was done. Otherwise (no such directory, file, type, process or command, arguments missing, contents that are refused) it is 1, there is a message or how to use the tool, and no file is changed. --help and --usage name every command, --version tells the version.',
  ['inputs', 'histories'], 'all arguments and directories', 'Tests do not run the tool.',
  ['satyr.c', 'lib/abrt.c', 'lib/report.c', 'lib/core_unwind.c', 'lib/generic_thread.c'], [('main, abrt_print_report_from_dir, abrt_create_core_stacktrace, debug_duphash, debug_unwind_from_hook', 'satyr.c'), ('sr_abrt_print_report_from_dir, create_core_stacktrace', 'lib/abrt.c')], 'status, output, files')
NA = []
HOOK_COMMITS = []

DESIGN = {}
DESIGN['C01'] = """
Specs: Frames (when two frames count as the same function, per type), Distance (the four measures as exact fractions: Levenshtein and
Damerau as recurrences, Jaccard on sets, Jaro-Winkler by its definition). MCDistance checks symmetry, identity, separation, triangle
inequality, range, Jaccard = set definition, Damerau <= Levenshtein on all short threads. Replay: all pairs of short gdb threads over three names,
perturbed pairs of all types (swaps, insertions, unknown names, 64-bit values), rotations and reversals, all pairs of different types.
"""
DESIGN['C02'] = """
Spec: Parts (borders of parts, state of each part, computation with any thread list, merging). MCParts explores all m, n, numbers of parts, all orders of
computing, and one worker with other threads; invariants: every cell in exactly one part, sizes balanced, merged = direct. Replay: all (m, n, parts)
up to n=6 and samples beyond; wrong workers, other sizes, uncomputed parts; histories of get/set/copy on matrices.
"""
DESIGN['C03'] = """
Spec: Cluster (merging as a nondeterministic transition: any pair at minimal average distance). MCCluster explores all small matrices with ties. Recorded
dendrograms of the code are validated by TLC (RunExplains: is there a sequence of minimal merges with these levels and this leaf order?);
cuts are compared exactly, for levels equal to, between, below and above all merge levels, and all minimum sizes.
"""
DESIGN['C04'] = """
Spec: Lists (a heap of stack traces; 20 editing commands). MCLists explores histories to a depth with invariants (only the named object changes, copies equal and independent).
Replay: random histories of about 25 commands per type with a full dump of all live objects after every command, ASan watching for sharing and double frees.
"""
DESIGN['C05'] = """
Spec: Normalize with the tables of NormTables (about 350 functions). MCNormalize: normalizing is idempotent on the removal passes, never invents frames, keeps order. Replay: every table entry with
each file it names, a wrong file, no file, near-miss names; processor variants; null calls, recursion, home directories; pairing of unknown functions; random mixes.
"""
DESIGN['C06'] = """
Spec: Normalize (FindCrash, exit frames), MCCrash checks that the choice is deterministic and independent of thread order. Replay: random stack traces with equal tops, thread ids and
exit frames, every exit function at each position; the crash frame and the crash thread before and after normalization.
"""
DESIGN['C07'] = """
Spec: Render.DupHash. MCRender: a limit only cuts, zero is unlimited, the identification used is the first available, normalizing first. Replay: every pair of absent strings per type, extreme numbers, prefixes, all flags, limits; repeated hashing of one thread.
"""
DESIGN['C08'] = """
Spec: Render.BtText. Replay: every single-field change of a base frame, header fields, libraries, random stack traces of all types, all flag variants.
"""
DESIGN['C20'] = """
Spec: Compare (which fields identify a frame/thread/stack trace). MCCompare checks the order laws of the specification; the code's result matrices for groups of near-equal values are recorded and TLC decides the laws on them
(zero iff identical, antisymmetric, transitive), including 64-bit values that differ by multiples of 2^32 and 32-bit values at the sign boundary.
"""
DESIGN['C24'] = """
Spec: Render (frame texts per type, short text, full gdb text, reason, function lists and their parser). MCShow: counted, read back equal, decimals. Replay: random stack traces of all types with five limits.
"""
DESIGN['C26'] = """
Spec: Libs (both listings line by line; covering entry). MCLibs: reading back printed lists, lookup is the first covering entry. Replay: generated listings with every line form, odd spacing, truncation, boundary addresses.
"""
DESIGN['C27'] = """
Spec: Normalize (RunQuality; exact fractions). MCQuality: share, monotone, bounds. Replay: every pattern of good and bad frames up to length seven, near-unknown names, absent and empty files; weights of the overall rating.
"""
DESIGN['C15'] = """
Spec: StJson (table of fields per type; writer, reader, what is carried, complaints in reading order). MCStJson: FromJson(ToJson(s)) = Carried(s), idempotent, unknown keys ignored, any null refused, any key may be dropped. Replay: random traces with
control characters, quotes, non-ASCII text, extreme numbers, 127..300 modules, threads without frames; documents written by hand in any key order; each wrong type at each place of a full document; three entry points, with and without error message.
"""
DESIGN['C16'] = """
Spec: Report (on StJson and, for the reason, Render). MCReport: FromReport(ReportJ(r)) = Carries(r), Carries idempotent, a null anywhere but in the reason refuses. Replay: random reports with every part present or absent, all type names and near misses, packages,
authentication entries with odd keys; documents with shuffled and unknown keys; each wrong type at each place of one full report per type.
"""
DESIGN['C17'] = """
Spec: Rpm. MCRpm grows lists record by record: sorting permutes and orders, merging is idempotent and keeps every package, its role and architecture; comparison is antisymmetric and transitive. MCRpmText types all short texts: what is
read is what is written, no part is empty. Replay: comparison matrices of near-equal packages (all three orders), sort/uniq of lists with many ties (any order of ties accepted, merging then specified on the order chosen), JSON, name texts with damaged
separators and epochs, dso lists with cut lines and extreme times, headers with missing tags served by stand-in rpmts functions.
"""
DESIGN['C18'] = """
Spec: ProblemDir (on Os and Rpm): Complete(files) and Report(files). MCDir fills a directory file by file (each good, malformed or unreadable) and checks what a report needs, that an affected package is there iff packaged, and that
optional files never spoil a complete directory. Replay: scratch directories made by the driver: random complete ones spoiled by up to two faults, type names cut at every place, every file of a full directory missing or unreadable, for each type.
"""
DESIGN['C19'] = """
Spec: Os. MCOs writes os-release files line by line in every order (14 kinds of line): last newline immaterial, rawhide iff mentioned, first VERSION_ID, noise lines immaterial. Replay: random files with odd keys and quoting, every prefix of a
full file, system-release texts.
"""
DESIGN['C11'] = """
Spec: PythonText (on TextBase): Read(text), Show(trace). MCPythonText: a program calls deeper and deeper, then an exception is raised: Read(Show(x)) = x, text around, marks below source lines immaterial. Replay: generated traces with odd names and numbers, then
spoilt by up to three random changes (lines deleted, doubled, swapped; characters changed; truncated), every prefix of full texts, every line missing; exact-size buffers under ASan. Texts in which a line begins as a frame but is none are read or refused (not judged which).
"""
DESIGN['C12'] = """
Spec: JavaText: Read, Show; states: within frames, after "... n more", within suppressed exceptions. MCJavaText builds chains of causes step by step: Read(Show(x)) = x, suppressed exceptions inserted anywhere immaterial, blank lines immaterial, innermost first. Replay as C11. Texts with a line that is neither frame nor marker
are read or refused.
"""
DESIGN['C13'] = """
Spec: RubyText: Read, Show. MCRubyText: calls with operators and special functions, blocks, rescues; Read(Show(x)) = x whatever the message. Replay as C11. A message that goes on after the exception name, and names with newlines, are read or refused.
"""
DESIGN['C14'] = """
Spec: JsText: Read, Show. MCJsText: Read(Show(x)) = x whatever the message, file names that look like places. Replay as C11. Blank lines at the end: read or refused.
"""
DESIGN['C10'] = """
Spec: KoopsText: a state machine over lines (text / modules / done; special stack; instruction pointer seen). MCKoopsText logs an oops line by line (calls, stacks, RIP/EIP, modules, noise): Read = what was logged, timestamps and last newline immaterial. Replay as C11, plus every text one character
away from seven short ones. Unjudged: lines beginning </IRQ>, what follows an ARM frame on its line.
"""
DESIGN['C09'] = """
Spec: GdbText: names as a grammar (chunks, braces, templates, operators), parameters as a pushdown of depth, string and escape, headers, threads. MCGdbText lets gdb write a crash frame and threads frame by frame over names, parameters and places of every sort: Read = what was written, libraries found before and
after, a broken thread at the end changes nothing. Replay as C10. Limits of the reader kept as they are: types of several words and conversion operators are refused, a thread header must follow a newline, what follows a broken frame is lost.
"""
DESIGN['C22'] = """
Spec: Scan: a position in a text of byte codes, one transition per primitive; files as a map of names to texts. MCScan takes any steps on every text up to 4 characters: never back, never past the end, refused is unmoved, line and column added up by sr_location_add's rule tell the position. Replay: every primitive at every place
of all short texts and of texts around numeric limits, in exact-size buffers; random scripts of steps with running location; files in a scratch directory.
"""
DESIGN['C21'] = """
Spec: Bind: the objects of a Python program as a heap (class, attributes, lists of references, crash thread, report links, whether a variable refers to them) with one transition per operation; all other specifications supply what methods mean: text readers, JSON, hash texts, distances, normalization, crash threads, parts of matrices. MCBind takes every short history on a heap of
a stack trace, a thread and frames (frames shared, repeated, removed, dropped): refused is unchanged, nothing but the object itself changes, copies are made of new objects and equal, equality is mutual, what is referred to lives. Replay: random histories of 5-20 operations per class of stack trace (including garbage, foreign classes, shared and repeated frames, dropped variables, reports, matrices in parts with pickling) run in Python with the module built with ASan; each result,
exception class and finally each object with its reference count is compared with TLC's. Dendrograms made in Python are validated as behaviours of Cluster. Objects that would hold themselves are left out (reference counting never releases them).
"""
DESIGN['C23'] = """
Spec: Dump (on Libs, GdbText): modules with functions, stack cells, registers of threads; Walk by frame pointers, one transition per frame; FrameAt, FromDump, FromGdb, Create, FromHook. MCDump takes every stack of two cells and every return address: the walk ends, climbs, stays inside, never shows __libc_start_main, keeps the oldest.
Replay: crafted ELF programs (fixed address or PIE, with libraries) and core dumps of them (vlib/elf.py: notes, auxv, r_debug link map, stacks up to 300 frames, broken chains, addresses at all bounds of modules and functions), read by sr_parse_coredump, sr_core_stacktrace_from_gdb, _create and both
problem directory writers (file compared through StJson); damaged dumps. Dying processes: crafted programs whose machine code sets the stack pointers and exits while seized as the kernel's hook does; skipped where tracing a child is not permitted. Left to elfutils: unwinding by CFI, an address right behind the last module.
"""
DESIGN['C25'] = """
Spec: Cli (on Report, ProblemDir, Dump, Normalize, Render): Step(world, arguments) gives status, output and the world after it. MCCli takes any runs of any 3 words in a small world: status 0 exactly without message, only the creating command changes anything and only core_backtrace of its directory, doing so again changes nothing,
the directory can be reported then. Replay: the real tool (satyr.c built with ASan) run 2 to 6 times on generated worlds (directories as in C18, crafted programs and dumps as in C23, texts of every type); status, parsed output, hash texts and every file in the world compared after each run. What readers make of texts is taken from
the library (C09 to C15). Left out: debug normalize of files (its input format is not defined anywhere), abrt-report-dir (not implemented), debug unwind-from-hook of living processes (writes to a fixed place in /tmp; the library call is in C23).
"""
