"""Writes /verif/properties.jsonl (one source of truth for the statements)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": state or [],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Parsing yields exactly the rows and cells the dialect prescribes",
    "For every text without NUL characters and every dialect (delimiter, quotechar and escapechar each a character or empty, strict on or off), parsing yields exactly the rows and cells of the documented grammar: cells end at unquoted, unescaped delimiters, records at unquoted line ends (CR, LF, CRLF), quoted cells lose their outer quotes and have doubled quotes collapsed without any doublequote setting, escapes apply only to the delimiter, quotechar and escapechar (otherwise the escape character is kept), blank lines give empty rows, and the final record is delivered with or without a trailing newline. "
    "Asking for quoted flags returns the same cells, each paired with whether it was quoted in the file. "
    "The result does not depend on whether the text arrives as a file object, a list of lines or a generator.",
    ["inputs", "configurations"],
    "all NUL-free texts (any Unicode, any length, any line ends), all dialects including empty components, strict on/off, with and without quoted flags, any line source",
    "tests/test_unit/test_cparser.py and test_reader.py check about a hundred literal strings; the state machine has nine states, three special characters and a look-ahead across buffers of growing size, so the combinations (and buffer-size boundaries) are unbounded",
    ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
    [("LL(2) state machine", "src/cparser.c: parse_process_char"), ("quote stripping and quoted flag", "src/cparser.c: parse_save_field"), ("end of input handling", "src/cparser.c: Parser_iternext")],
    ["clevercsv.cparser_util.parse_data", "clevercsv.reader"],
    [{"name": "ParserObj", "meaning": "parser state, current field buffer, fields of the record", "where": "src/cparser.c"}],
)
prop(
    "C02",
    "clevercsv.reader is a drop-in replacement for csv.reader",
    "On every well-formed CSV text (any dialect that both modules can express, strict or not), clevercsv.reader produces the same rows as csv.reader when given the same source and the same dialect, whether the dialect is a registered name, a Dialect class, a Dialect instance or keyword parameters. "
    "It also behaves as the same kind of iterator: next() and for-loops may be mixed without losing or repeating rows, line_num is the number of source lines consumed after each row, and source lines are consumed lazily. "
    "The dialect object passed in is never modified, changing it after the reader was made has no effect, and the reader's dialect attribute describes the dialect in use.",
    ["inputs", "histories", "configurations"],
    "all well-formed texts generated from a grammar (quoted/unquoted cells, embedded delimiters, newlines and doubled quotes, escapes), all dialect forms, all interleavings of next()/iteration/line_num reads",
    "the tests read a few literal strings with fresh readers; nothing mixes next() with iteration, checks line_num, strict on quoted data, or Dialect classes and instances",
    ["clevercsv/read.py", "clevercsv/dialect.py", "src/cparser.c"],
    [("reader wrapper and iterator protocol", "clevercsv/read.py: reader"), ("dialect conversion", "clevercsv/dialect.py: SimpleDialect.from_csv_dialect")],
    ["clevercsv.reader", "clevercsv.reader.line_num", "clevercsv.reader.dialect"],
)
prop(
    "C03",
    "Whatever clevercsv writes, clevercsv reads back unchanged",
    "For every table of strings and every dialect, if clevercsv.writer accepts the table then reading its output with clevercsv.reader and the same dialect returns exactly the same rows (every cell, every row, in order). "
    "This holds for quoted and unquoted dialects, with and without escape character, for every line terminator of CR, LF or CRLF, and for embedded delimiters, quotes, escape characters and line breaks.",
    ["inputs", "configurations"],
    "all tables of NUL-free Unicode strings, all dialects usable for writing (delimiter non-empty, distinct special characters), all writer outputs",
    "the tests compare writer output for a few fixed rows and never read it back",
    ["clevercsv/write.py", "clevercsv/read.py", "clevercsv/dialect.py", "src/cparser.c"],
    [("dialect to csv dialect", "clevercsv/dialect.py: SimpleDialect.to_csv_dialect"), ("writer", "clevercsv/write.py: writer"), ("parser", "src/cparser.c")],
    ["clevercsv.writer", "clevercsv.reader"],
)
prop(
    "C04",
    "clevercsv.writer is a drop-in replacement for csv.writer",
    "For every sequence of writerow/writerows calls with any rows, any dialect form (registered name, Dialect class, Dialect instance, SimpleDialect) and any format parameters, clevercsv.writer writes exactly the text csv.writer writes for the equivalent dialect and returns the same values. "
    "Where csv.writer raises csv.Error for the data, clevercsv.writer raises clevercsv.Error, and the output produced up to that point is the same. "
    "Format parameters override the dialect and the dialect object passed in is not modified, nor does changing it later change what the writer writes; a dialect class that sets no line terminator is written with a newline.",
    ["inputs", "histories", "configurations"],
    "all rows of strings, numbers, None and mixed objects; all dialect forms and format parameters accepted by the csv module; all call sequences",
    "the tests write a few literal rows; dialect forms, overrides, error equivalence and return values are not explored",
    ["clevercsv/write.py", "clevercsv/dialect.py"],
    [("dialect resolution and overrides", "clevercsv/write.py: writer._make_python_dialect"), ("error translation", "clevercsv/write.py: writerow/writerows")],
    ["clevercsv.writer"],
)
prop(
    "C05",
    "DictReader and DictWriter behave as their csv counterparts",
    "For every table, header and option (fieldnames, restkey, restval, extrasaction, dialect), clevercsv.DictReader yields the same dictionaries, fieldnames and line numbers as csv.DictReader on the same well-formed source, and clevercsv.DictWriter writes the same text, accepts and rejects the same dictionaries as csv.DictWriter. "
    "Records written by DictWriter are read back by DictReader as equal dictionaries in the same order, and duplicate header names produce a warning rather than silent loss.",
    ["inputs", "histories", "configurations"],
    "all tables incl. ragged rows and blank lines, all fieldnames (given or from header), all restkey/restval/extrasaction settings, call interleavings",
    "test_dict.py uses a handful of literal files",
    ["clevercsv/dict_read_write.py", "clevercsv/read.py", "clevercsv/write.py"],
    [("row to dict mapping", "clevercsv/dict_read_write.py: DictReader.__next__"), ("dict to row mapping", "clevercsv/dict_read_write.py: DictWriter._dict_to_list")],
    ["clevercsv.DictReader", "clevercsv.DictWriter"],
)
prop(
    "C06",
    "Bad input can only raise an ordinary error, never corrupt the process",
    "For every sequence of lines (any text including NUL, surrogates and non-strings, any length) and every argument, the compiled parser and abstraction helpers either return or raise an ordinary exception: no memory error, undefined behaviour, leaked references (a reader that its own source refers to is collected too) or crash. "
    "Malformed data raises clevercsv.Error from the public reading API, exceptions raised by the line source propagate unchanged, and rows before the failure are delivered. "
    "After any error the reader and the module stay usable and later results are unaffected.",
    ["inputs", "histories", "fault_sequences"],
    "all line sequences incl. NUL, lone surrogates, non-strings, sources that raise at any position; all (also ill-typed) constructor arguments; sequences of calls after an error",
    "memory errors and leaks are invisible to functional tests unless they crash, and tests feed only a few malformed inputs and never a failing source",
    ["src/cparser.c", "src/abstraction.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
    [("buffer growth", "src/cparser.c: parse_grow_buff; src/abstraction.c realloc"), ("error paths and reference counts", "src/cparser.c: Parser_iternext, cparser_parser"), ("error translation", "clevercsv/read.py, clevercsv/cparser_util.py")],
    ["clevercsv.reader", "clevercsv.cparser.Parser", "clevercsv.cabstraction"],
)
prop(
    "C07",
    "The field size limit is exact, and detection neither obeys nor disturbs it",
    "Reading raises clevercsv.Error exactly when some cell, as scanned (its opening quote included), has more characters than clevercsv.field_size_limit() (131072 by default) allowed when the reader started, and otherwise the limit has no effect on the result; setting the limit returns the old value and rejects non-integers without changing it. "
    "Dialect detection works on cells longer than the limit. "
    "Whatever detection does - return a dialect, return None, raise, run verbosely or with explicit delimiters - the limit in force afterwards is the one in force before, and it is never altered as seen by other code that runs during the detection.",
    ["inputs", "histories", "configurations", "schedules"],
    "all non-negative limits that fit a C long, all cell lengths around the limit and the buffer sizes, all sequences of set/get/read/detect calls, detection failing at any point, observation during detection",
    "tests check one limit on one string; none observes the limit after a failing detection or during one",
    ["clevercsv/cparser_util.py", "clevercsv/consistency.py", "src/cparser.c"],
    [("limit check", "src/cparser.c: parse_add_char"), ("global limit", "clevercsv/cparser_util.py: field_size_limit"), ("limit during detection", "clevercsv/consistency.py: ConsistencyDetector.detect")],
    ["clevercsv.field_size_limit", "clevercsv.reader", "clevercsv.Detector.detect"],
    [{"name": "_FIELD_SIZE_LIMIT", "meaning": "process-wide limit", "where": "clevercsv/cparser_util.py"}],
)
prop(
    "C08",
    "Dialect objects convert, serialise, compare and order lawfully",
    "For every valid SimpleDialect, converting to a dict and back and serialising and deserialising each give an equal dialect (delimiter, quotechar, escapechar and strict all preserved); so does converting to a csv dialect and back, and the csv module can use that dialect, for every dialect the csv module can express (one without a delimiter is refused with an error). "
    "Equality is exactly equality of the four components, equal dialects hash equally, and on dialects with defined components the comparison operators form a strict total order with comma dialects first, then semicolon dialects. "
    "validate() accepts exactly components that are strings of at most one character with a boolean strict, and conversion of invalid dialects to dict or JSON is refused.",
    ["inputs"],
    "all component values (any Unicode character, empty, None, too long), strict on/off, all pairs and triples of dialects",
    "tests serialise four dialects; order and hash laws quantify over pairs and triples",
    ["clevercsv/dialect.py"],
    [("conversions", "clevercsv/dialect.py: from_csv_dialect, to_csv_dialect, to_dict, serialize"), ("ordering", "clevercsv/dialect.py: __lt__ with functools.total_ordering")],
    ["clevercsv.dialect.SimpleDialect"],
)
prop(
    "C09",
    "Dialect detection answers for every text, with a dialect found in the text",
    "For every Unicode string, Detector.detect (every method, skip setting, verbosity, with or without explicit delimiters) returns None or a valid SimpleDialect; the only exception is clevercsv.Error for text containing NUL. "
    "A returned dialect has strict off, its delimiter, quotechar and escapechar are each empty or occur in the text, the delimiter is not a letter, digit, quote, period, slash, bracket or line break (unless explicitly allowed), the quotechar is one of the four supported ones, and the text parses with it without error. "
    "The text passed is only read, and verbose mode changes nothing but what is printed.",
    ["inputs", "configurations"],
    "all texts (empty, whitespace only, binary-like, messy, huge cells, deeply nested JSON, any script), all option combinations",
    "tests detect some dozens of literal files; totality over arbitrary text is exactly what a user of a messy-file tool relies on and cannot be sampled by hand",
    ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/potential_dialects.py", "clevercsv/break_ties.py", "clevercsv/detect_type.py"],
    [("detection pipeline", "clevercsv/detect.py: Detector.detect"), ("candidate dialects", "clevercsv/potential_dialects.py: get_dialects"), ("normal forms", "clevercsv/normal_form.py: detect_dialect_normal")],
    ["clevercsv.Detector.detect", "clevercsv.Sniffer.sniff"],
)
prop(
    "C10",
    "Dialect detection is a deterministic function of the text",
    "For every text and options, detection returns the same dialect every time: in a new process with any string-hash seed, on a new or reused detector, before or after detecting or reading anything else, whatever is done with the dialects returned, from several threads, and with or without verbose output. "
    "The choice among equally scored dialects does not depend on the order in which characters, delimiters or dialects happen to be enumerated.",
    ["inputs", "histories", "configurations", "schedules"],
    "all texts (in particular texts with ties and several candidate dialects), all hash seeds, all histories of earlier calls on the same objects",
    "the tests run in one process with one hash seed and fresh objects",
    ["clevercsv/consistency.py", "clevercsv/potential_dialects.py", "clevercsv/break_ties.py", "clevercsv/detect.py"],
    [("sorted candidate order", "clevercsv/consistency.py: compute_consistency_scores"), ("type cache reset", "clevercsv/consistency.py: detect"), ("set-based pair reduction", "clevercsv/break_ties.py: reduce_pairwise")],
    ["clevercsv.Detector.detect", "clevercsv.detect_dialect"],
    [{"name": "_cached_is_known_type", "meaning": "LRU cache of cell types", "where": "clevercsv/consistency.py"}],
)
prop(
    "C11",
    "Detection options mean what they say",
    "Skipping (the default) never changes the detected dialect compared with computing every type score. "
    "Method 'normal' uses normal-form detection only, 'consistency' the consistency measure only, and 'auto' gives the normal-form result when there is one and the consistency result otherwise, with the method actually used recorded; sniff equals detect. "
    "Explicit delimiters (a string, list, set or generator) restrict the result to those delimiters or none, whatever kind of collection holds them, and naming exactly the delimiters that would be considered anyway changes nothing. "
    "Verbose output appears only when asked for and never changes the result.",
    ["inputs", "configurations"],
    "all texts, all methods, skip on/off, verbose on/off, all delimiter collections, options by name and by position",
    "tests check skip on one file and methods on a couple; equivalence of skip on/off is a statement over all texts",
    ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/potential_dialects.py"],
    [("skip rule", "clevercsv/consistency.py: compute_consistency_scores"), ("method dispatch", "clevercsv/detect.py: Detector.detect")],
    ["clevercsv.Detector.detect", "clevercsv.consistency.ConsistencyDetector"],
)
prop(
    "C12",
    "The consistency measure picks the dialect with the best P x T score",
    "For every text and candidate dialect, the consistency score is the pattern score times the type score, where the type score is the fraction of parsed cells of a recognised type (never below 1e-10) - regardless of cell repetition, cache size or field size limit. "
    "Detection by consistency considers every combination of potential delimiter, quotechar and escapechar, and returns the unique dialect with the highest score; if several share it, one of them or None.",
    ["inputs", "configurations"],
    "all texts, all candidate dialects, all cache capacities",
    "tests compare scores for a few dialects on a few strings",
    ["clevercsv/consistency.py", "clevercsv/detect_type.py", "clevercsv/detect_pattern.py"],
    [("scores", "clevercsv/consistency.py: compute_consistency_scores, compute_type_score"), ("argmax", "clevercsv/consistency.py: get_best_dialects")],
    ["clevercsv.consistency.ConsistencyDetector", "clevercsv.detect_type.type_score"],
)
prop(
    "C13",
    "Row-pattern abstraction and pattern score match their definition",
    "For every text and dialect the row abstraction is the documented one: runs of ordinary characters become one cell, unescaped delimiters, quotes and line ends become markers, complete quoted blocks (doubled quotes included) count as cell text whatever they contain, empty cells are filled in, and trailing row markers are dropped; the result contains only C, D, R and (unclosed) Q markers. "
    "The pattern score is the sum over distinct row patterns of count times max(eps, cells-1)/cells, divided by the number of distinct patterns. "
    "Length of the text, number of quoted blocks and kind of characters do not matter.",
    ["inputs", "configurations"],
    "all texts of any length and script, all dialects incl. empty components, any number of quoted blocks",
    "tests use about sixty short strings; the C code has growing buffers (4096 characters, 4 quoted blocks) that short strings never reach",
    ["src/abstraction.c", "clevercsv/detect_pattern.py"],
    [("abstraction", "src/abstraction.c: base_abstraction"), ("quoted block merge", "src/abstraction.c: c_merge_with_quotechar"), ("score", "clevercsv/detect_pattern.py: pattern_score")],
    ["clevercsv.detect_pattern.make_abstraction", "clevercsv.detect_pattern.pattern_score"],
)
prop(
    "C14",
    "Cleanly formatted files are detected with their true dialect",
    "Every regular table of non-empty simple cells (letters, digits, spaces and . _ & - + % ( ), also @ and / where no delimiter or quote follows; quoted cells may hold delimiters too) with at least two columns and two rows that is written with delimiter comma, semicolon, pipe or tab - with no quotes, with all cells quoted, or with some cells quoted - is detected with that delimiter and with that quote character (none if no cell is quoted), and reading it with the detected dialect returns the original table. "
    "A single column (two rows at least) of cells of letters, digits and . _ & - is detected as having no delimiter. "
    "The result is the same for LF, CRLF and CR line ends and with or without a final line end.",
    ["inputs", "configurations"],
    "all regular tables over simple-cell alphabets, four delimiters, two quote characters, quoting styles none/all/some, three line ends",
    "tests check about twenty literal files; the claim covers every clean table",
    ["clevercsv/normal_form.py", "clevercsv/detect.py"],
    [("normal forms 1-5", "clevercsv/normal_form.py: is_form_1..is_form_5, split_row, split_file")],
    ["clevercsv.Detector.detect", "clevercsv.detect_dialect", "clevercsv.read_table"],
)
prop(
    "C15",
    "Detection does not depend on the line-ending convention",
    "For every text whose line breaks all separate rows (none quoted or escaped), replacing all line ends by LF, CRLF or CR, or appending line ends at the end, does not change the pattern score or type score of any dialect. "
    "Consequently the dialect detected by the consistency measure, and by the default method, is the same for all three conventions.",
    ["inputs", "configurations"],
    "all texts with uniform line ends, converted between LF, CRLF and CR and with trailing line ends added",
    "tests hold no text in two conventions",
    ["clevercsv/normal_form.py", "src/abstraction.c", "src/cparser.c", "clevercsv/detect_type.py"],
    [("line splitting", "clevercsv/normal_form.py: split_file, strip_trailing_crnl"), ("row markers", "src/abstraction.c")],
    ["clevercsv.Detector.detect", "clevercsv.detect_pattern.pattern_score", "clevercsv.detect_type.type_score"],
)
prop(
    "C16",
    "Cell type detection recognises each documented type and only those",
    "Every well-formed number (integer, decimal with point or comma, exponent, thousands separators with a decimal mark), percentage, currency amount, URL, e-mail address, IPv4 address, Unix path, date, time, date-time (ISO offsets and Z included), JSON object, byte array, NaN marker, alphanumeric text and empty cell is recognised as a known type, and as that type where types do not overlap. "
    "Values outside every type's format are reported as unknown. "
    "The answer is independent of surrounding whitespace (a detector made without stripping counts it as part of the cell) and of earlier calls, and quoting a cell never makes a known cell unknown.",
    ["inputs", "histories"],
    "all values generated from per-type grammars, near-miss mutations of them, any surrounding whitespace, quoted or not",
    "tests list literal examples per type; each type is an infinite language defined by a regular expression of up to a hundred terms",
    ["clevercsv/detect_type.py", "clevercsv/_regexes.py"],
    [("type tests in order", "clevercsv/detect_type.py: TypeDetector"), ("regular expressions", "clevercsv/_regexes.py")],
    ["clevercsv.detect_type.TypeDetector"],
)
prop(
    "C17",
    "The potential dialects of a text are exactly those its characters allow",
    "For every text the candidate delimiters are the empty one plus exactly the characters outside URLs that are a tab or neither in a blocked Unicode category nor a blocked character (or, when delimiters are given, those that occur), and the candidate quotechars are the empty one plus the supported quote characters that occur outside URLs. "
    "The candidate dialects are all their combinations with, as escapechar, the empty one or any potential escape character that somewhere directly precedes the delimiter or quotechar, each combination exactly once. "
    "Optional removal of delimiters that are always masked by quotes removes exactly the dialects whose delimiter never occurs outside a quoted segment.",
    ["inputs", "configurations"],
    "all texts (with URLs, any script), explicit or automatic delimiters, masking test on or off",
    "tests check nine strings for delimiters and a few for dialects",
    ["clevercsv/potential_dialects.py", "clevercsv/escape.py"],
    [("candidates", "clevercsv/potential_dialects.py: get_dialects, get_delimiters, get_quotechars"), ("escape rule", "clevercsv/escape.py: is_potential_escapechar"), ("masking", "clevercsv/potential_dialects.py: masked_by_quotechar")],
    ["clevercsv.potential_dialects"],
)
prop(
    "C18",
    "Tie-breaking picks only among the tied dialects, by the documented rules",
    "For every text and set of tied dialects the tie breaker returns one of them or None, does not modify them, and does not depend on their order. "
    "Two dialects that differ only in having a quotechar are resolved to the one without it exactly when both parse the text identically, comma beats space, any delimiter beats hyphen, and other delimiter ties stay unresolved. "
    "A dialect that uses an escape character is chosen over the one that does not only if the parsed shape is the same.",
    ["inputs", "configurations"],
    "all texts, all pairs, triples and quadruples of dialects in any order",
    "tests cover a handful of literal ties",
    ["clevercsv/break_ties.py"],
    [("pair rules", "clevercsv/break_ties.py: break_ties_two"), ("reduction", "clevercsv/break_ties.py: reduce_pairwise, break_ties_three, break_ties_four")],
    ["clevercsv.break_ties.tie_breaker"],
)
prop(
    "C19",
    "Encoding detection returns a usable encoding wherever the evidence lies",
    "For every file whose bytes are plain ASCII text, UTF-8 text with at least a dozen non-ASCII letters (of the Basic Multilingual Plane), or any non-empty text with a UTF-8/UTF-16/UTF-32 byte order mark, the detected encoding decodes the whole file to exactly the original text (without the byte order mark, if there is one); the position of the first non-ASCII character, in particular beyond the first 64 KiB block, does not matter. "
    "Detection reads the file only, uses cchardet unless try_cchardet is false (where it is installed), returns the same result on every call, and returns None or the name of an encoding Python knows for arbitrary bytes including the empty file.",
    ["inputs", "configurations"],
    "all file contents and sizes around and beyond the read block, with evidence at any position; both detector back ends",
    "tests encode a few short sentences",
    ["clevercsv/encoding.py"],
    [("block loop", "clevercsv/encoding.py: get_encoding")],
    ["clevercsv.encoding.get_encoding", "clevercsv.read_table"],
)
prop(
    "C20",
    "has_header votes on the parsed table as documented",
    "For every sample with a detectable dialect, Sniffer.has_header returns the answer of the documented column vote (a column of consistent type int, float, complex or cell length over the following rows whose header cell differs counts for a header, otherwise against), evaluated on the rows read with the detected dialect. "
    "Only the first max_rows_to_check rows after the header (plus one) and rows of the header's length take part. "
    "It never fails on a sample the reader can read: an empty sample has no header, and the line-ending convention does not matter.",
    ["inputs", "configurations"],
    "all samples (typed columns with/without header, ragged rows, any line ends, more rows than the limit), all row limits",
    "tests check six samples",
    ["clevercsv/detect.py"],
    [("column vote", "clevercsv/detect.py: Detector.has_header")],
    ["clevercsv.Sniffer.has_header"],
)
prop(
    "C21",
    "The reading helpers all return what the file contains",
    "For every file, read_table, stream_table, read_dicts, stream_dicts and detect_dialect agree: each detects the encoding and dialect from the file (or uses the given ones), and returns exactly the rows that clevercsv.reader (or DictReader) yields on the decoded text with that dialect, from the first character to the last. "
    "num_chars influences only which prefix is used for detection, never which rows are returned, and a failed detection raises NoDetectionResult. "
    "verbose shows the progress of a detection on standard output and changes nothing else; without it nothing is printed. "
    "Embedded line breaks, CR-only files, multi-byte characters across buffer boundaries and large files are returned unchanged, and files are closed afterwards.",
    ["inputs", "configurations"],
    "all file contents, encodings, dialect arguments of all forms, num_chars values, helpers",
    "tests read a few small files; num_chars, rewinding and encodings are barely touched",
    ["clevercsv/wrappers.py", "clevercsv/encoding.py"],
    [("detect, rewind, read", "clevercsv/wrappers.py: stream_table, stream_dicts, detect_dialect")],
    ["clevercsv.read_table", "clevercsv.stream_table", "clevercsv.read_dicts", "clevercsv.stream_dicts", "clevercsv.detect_dialect"],
)
prop(
    "C22",
    "The writing helpers write the whole table or refuse",
    "For every table with constant row length, write_table writes exactly the rows (or columns when transposing) so that read_table with the same dialect and encoding returns them, by default in RFC-4180 form; a table without constant row length raises ValueError, with or without transposing, and never loses cells. "
    "write_dicts writes a header of the first item's keys and one row per item, so that read_dicts returns equal records, and refuses items with keys not in the header. "
    "An empty table or item collection of any iterable kind creates no file, a refused table leaves an existing file untouched, and the input is not modified.",
    ["inputs", "configurations"],
    "all tables (lists, tuples, generators, empty, ragged), dialect forms, encodings, transpose on/off, all dict collections",
    "tests write four small tables",
    ["clevercsv/wrappers.py", "clevercsv/write.py", "clevercsv/dict_read_write.py"],
    [("validation before writing", "clevercsv/wrappers.py: write_table"), ("header from first item", "clevercsv/wrappers.py: write_dicts")],
    ["clevercsv.write_table", "clevercsv.write_dicts"],
)
prop(
    "C23",
    "read_dataframe holds the same data as read_table",
    "For every file that is a regular table with a header, read_dataframe (keeping cells as strings) returns a DataFrame whose columns and values equal the header and rows read_table returns for the same file, for every detected dialect including single-column files, every encoding and every num_chars. "
    "Additional pandas arguments are passed on, the caller's arguments are not modified, and a path that is not a regular file raises ValueError.",
    ["inputs", "configurations"],
    "all regular tables and dialects, encodings, num_chars, extra pandas arguments",
    "tests read two small files",
    ["clevercsv/wrappers.py", "clevercsv/dialect.py"],
    [("dialect hand-over to pandas", "clevercsv/wrappers.py: read_dataframe; clevercsv/dialect.py: to_csv_dialect")],
    ["clevercsv.read_dataframe"],
)
prop(
    "C24",
    "The detect command reports exactly the dialect the library detects",
    "For every file and option set, 'clevercsv detect' prints a dialect that equals detect_dialect with the corresponding arguments and exits 0, or prints an error to standard error and exits 1 when detection fails. "
    "Plain, JSON and default output each determine delimiter, quotechar and escapechar unambiguously (also tab and space), JSON output is a single valid JSON object, and --add-runtime only adds a runtime entry.",
    ["inputs", "configurations"],
    "all files, all combinations of -c, -e, -n, --no-skip, -p/-j, --add-runtime, -v",
    "tests run the command on about five fixed files",
    ["clevercsv/console/commands/detect.py", "clevercsv/wrappers.py"],
    [("output formatting", "clevercsv/console/commands/detect.py: DetectCommand.handle")],
    ["clevercsv detect"],
)
prop(
    "C25",
    "Generated code is valid Python that reads the file as read_table does",
    "For every file name, dialect, encoding and number of characters, the program printed by 'clevercsv code' compiles, and running it yields rows equal to read_table of the file with the same options (with --pandas a DataFrame equal to read_dataframe). "
    "File names and dialects containing quotes, backslashes, tabs or non-ASCII characters are handled, and 'clevercsv explore' loads the same data into its session.",
    ["inputs", "configurations"],
    "all file names, file contents, dialects, encodings and options",
    "tests compare the generated text for six fixed files and never execute it",
    ["clevercsv/console/commands/_utils.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/explore.py"],
    [("code generation", "clevercsv/console/commands/_utils.py: generate_code")],
    ["clevercsv code", "clevercsv explore"],
)
prop(
    "C26",
    "standardize rewrites a file to RFC-4180 without changing its data",
    "For every file whose dialect is detected, 'clevercsv standardize' (to standard output, to files, or in place) produces text that csv.reader's excel dialect reads back as exactly the rows read_table returns for the input with the same options, with CRLF line ends and minimal quoting; with --transpose exactly the transposed rows, padded with empty cells where rows are ragged. "
    "Standardising an already standardised file that is detected as such changes nothing. "
    "Several inputs are each processed with their own output and encoding, mismatched counts and conflicting options exit 1 without touching anything, and the output has the requested target encoding, by default that of the input.",
    ["inputs", "configurations"],
    "all files, encodings, target encodings, transpose on/off, output modes, numbers of files",
    "tests run about ten fixed files",
    ["clevercsv/console/commands/standardize.py", "clevercsv/write.py", "clevercsv/read.py"],
    [("copy rows", "clevercsv/console/commands/standardize.py: _write_direct, _write_transposed"), ("argument pairing", "clevercsv/console/commands/standardize.py: handle")],
    ["clevercsv standardize"],
)
prop(
    "C27",
    "In-place standardization replaces the file completely or not at all",
    "'clevercsv standardize -i' exits 0 and leaves the file byte-for-byte untouched when it is already standard, exits 2 after replacing it by the complete standardized content otherwise, and with several files exits 2 if any was altered. "
    "If anything fails at any point (undecodable input, data the target encoding cannot represent, malformed data, a write error, no room), the input file keeps its original content. "
    "No temporary files are left behind in either case, no other file is changed, and the permissions of the file are kept.",
    ["inputs", "fault_sequences", "crash_points", "configurations"],
    "all files, encodings and target encodings; a failure injected at every read, write, flush, close and rename step",
    "tests check two successful in-place runs; no test injects a failure",
    ["clevercsv/console/commands/standardize.py", "clevercsv/utils.py"],
    [("write to temporary file, compare, move", "clevercsv/console/commands/standardize.py: _in_place")],
    ["clevercsv standardize -i", "exit code", "file content", "temporary directory"],
)
prop(
    "C28",
    "The view command shows exactly the rows of the file",
    "For every readable file, 'clevercsv view' hands the table viewer exactly the rows read_table returns for the same options, and with --transpose exactly their transpose, where short rows are padded and no cell is dropped or invented. "
    "It exits 0 on success, also for empty files and blank lines, and 1 with an error message when detection fails.",
    ["inputs", "configurations"],
    "all files incl. ragged and empty ones, encodings, num_chars, transpose on/off",
    "tests view two small files",
    ["clevercsv/console/commands/view.py", "clevercsv/wrappers.py"],
    [("padding and transposing", "clevercsv/console/commands/view.py: ViewCommand.handle")],
    ["clevercsv view"],
)

prop(
    "C29",
    "Missing optional packages disable only what needs them",
    "Whatever subset of the optional packages (pandas, tabview, wilderness, cchardet) is missing or cannot be imported, clevercsv can be imported and every function and command that doesn't need a missing one returns exactly what it returns with all of them installed (encodings without cchardet being those that chardet detects). "
    "Whatever needs a package that is missing, or older than the documented minimum (read_dataframe: pandas; the view command: tabview; the command line: wilderness), raises ImportError, and any version that isn't older, in any version scheme, is accepted.",
    ["configurations", "inputs"],
    "all subsets of missing, broken or outdated optional packages, all versions, all files and operations",
    "the tests run with all packages installed",
    ["clevercsv/_optional.py", "clevercsv/__init__.py", "clevercsv/__main__.py", "clevercsv/encoding.py", "clevercsv/wrappers.py", "clevercsv/console/commands/view.py"],
    [("import with version check", "clevercsv/_optional.py: import_optional_dependency"), ("fall back to chardet", "clevercsv/encoding.py: get_encoding")],
    ["import clevercsv", "all public functions", "the commands"],
)
prop(
    "C30",
    "Readers, writers, detectors and streams do not influence each other",
    "For every set of readers, writers, dictionary readers and writers, detectors, streams and file helpers that are used together - in turn in any order, from within each other's line sources and output files, or in threads of their own, sharing dialect objects or not - each gives exactly the results it gives when used alone. "
    "Results handed out earlier (rows, dictionaries, dialects) are never changed by later operations, and changing them influences no later result.",
    ["histories", "schedules", "inputs"],
    "all interleavings of the operations of any number of objects, nested calls and threads included",
    "every test uses one object at a time",
    ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/dict_read_write.py", "clevercsv/detect.py", "clevercsv/detect_type.py", "clevercsv/consistency.py", "clevercsv/wrappers.py"],
    [("state per object", "src/cparser.c: ParserObj; clevercsv/read.py: reader; clevercsv/detect.py: Detector"), ("caches", "clevercsv/consistency.py: ConsistencyDetector")],
    ["reader", "writer", "DictReader", "DictWriter", "Detector", "stream_table", "stream_dicts", "write_table"],
)

prop(
    "C31",
    "Normal-form detection accepts exactly the documented normal forms",
    "Method 'normal' answers exactly when no potential escape character directly precedes a quote or possible delimiter and, for a possible delimiter, all rows have the same number (at least two) of cells and these are: all unquoted, each empty or elementary (letters, digits, space and . _ & - @ + % ( ) /); or all quoted; or, with two rows at least, none empty and each quoted or elementary; or, with two rows at least, rows of elementary or empty cells that are each quoted as a whole. "
    "Two or more rows are also a normal form without delimiter if all are unquoted words of letters, digits and . _ & -, or all quoted (spaces allowed). "
    "The dialect returned is the one that names the delimiter and quote character of the form (no escape character), the first in the order: unquoted forms, then delimiters in the order comma, semicolon, pipe, tab, others, however they were given, then single columns.",
    ["inputs", "configurations"],
    "all texts, line-end conventions and collections of delimiters",
    "tests/test_unit/test_normal_forms.py checks some thirty literal texts against single forms",
    ["clevercsv/normal_form.py", "clevercsv/detect.py", "clevercsv/escape.py"],
    [("forms in order", "clevercsv/normal_form.py: detect_dialect_normal"), ("cells of a row", "clevercsv/normal_form.py: split_row")],
    ["Detector.detect with method normal"],
)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps(p, ensure_ascii=False) + "\n")
