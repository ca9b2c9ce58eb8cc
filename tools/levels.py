"""Per property: technique, level, note (for MANIFEST.json)."""
X = "exploration"
T = "property-based testing: "
NOTES = {
    "C01": (T + "generated and exhaustively enumerated texts against an independent reference tokenizer", X,
            "Exact differential against an independently written reference tokenizer, exhaustive for short texts over five characters, random with buffer-size boundaries beyond; trusts the reference tokenizer."),
    "C02": (T + "grammar-generated well-formed texts, dialect forms and iteration histories, differential against csv.reader", X,
            "Oracle is the csv module of the running Python; explores random programs of next/for/zip/line_num reads over random dialect objects."),
    "C03": (T + "random tables and dialects, writer/reader round trip", X,
            "Oracle is the input table itself; every dialect form and line terminator is sampled, cells are biased to special characters."),
    "C04": (T + "random call histories, differential against csv.writer", X,
            "Oracle is csv.writer given the same rows and parameters; compares text, return values, error classes and the dialect object afterwards."),
    "C05": (T + "random tables, options and call histories, differential against csv.DictReader/DictWriter plus round trip", X,
            "Oracle is the csv module of the running Python; warnings and the dictionaries' round trip are checked on their own."),
    "C06": (T + "fuzzing of a sanitizer build with ill-typed, failing and arbitrary sources; reference-count and block-count leak oracle", X,
            "AddressSanitizer and UBSan build of the C extensions; leaks are decided by reference counts and allocated blocks over repeated calls; sampling, not proof."),
    "C07": (T + "generated limits, cell lengths and call histories against an exactness model; limit probes during detection", X,
            "Exact model of the limit; other code is represented by probes running inside the detection and in a second thread."),
    "C08": (T + "generated dialects, pairs and triples against algebraic laws", X,
            "Laws are checked on random component values, pairs and triples; the csv module decides whether the converted dialect is usable."),
    "C09": (T + "fuzzing of detection with arbitrary and messy texts and options, validity predicate", X,
            "Totality is sampled over random texts of many kinds; lone surrogates are outside the domain."),
    "C10": (T + "tie-rich texts, histories, hash seeds and threads; equality over runs", X,
            "Compares runs in fresh processes with different hash seeds, after different histories, and in threads."),
    "C11": (T + "metamorphic relations between option settings on generated texts", X,
            "Each relation is checked on the same generated text; consistency is compared with an unskipped run."),
    "C12": (T + "generated texts and dialects, differential against a naive recomputation of P, T, Q and the arg max", X,
            "The reference recomputes scores from the reference abstraction, the reference tokenizer and uncached type detection."),
    "C13": (T + "generated texts incl. long and many-block ones, differential against a reference abstraction and score", X,
            "Independent Python reference of the abstraction; exhaustive for short texts over five characters."),
    "C14": (T + "generated clean tables with a known true dialect", X,
            "The generator knows the dialect and the table; explores shapes, quoting styles, line ends."),
    "C15": (T + "generated texts converted between line-end conventions, metamorphic equality", X,
            "Compares scores and detected dialects over LF, CRLF and CR versions of the same text."),
    "C16": (T + "values from per-type grammars, near-miss mutations, recogniser oracle and metamorphic relations", X,
            "Independent recognisers decide the expected type; quoting, whitespace and histories are metamorphic."),
    "C17": (T + "generated texts, differential against a set-comprehension specification", X,
            "The reference enumerates candidates from the Unicode database directly."),
    "C18": (T + "tie-prone texts and dialect tuples in any order, rule predicates", X,
            "Pair rules are exact; larger sets are checked for membership, order independence and the delimiter rule."),
    "C19": (T + "generated byte files with evidence at chosen offsets, decode round trip", X,
            "The generator knows the text; both detector back ends are driven."),
    "C20": (T + "generated tables, differential against a reference vote", X,
            "The reference vote is written from the documentation and evaluated on the reader's rows."),
    "C21": (T + "generated files, encodings and arguments, differential against reader on the decoded text", X,
            "Oracle is clevercsv.reader on the decoded text; helpers are compared with each other and file handles are counted."),
    "C22": (T + "generated tables and records, round trip and refusal rules", X,
            "Oracle is the input table; existing files and inputs are compared before and after."),
    "C23": (T + "generated regular tables, differential against read_table", X,
            "Oracle is read_table on the same file; pandas' own interpretation is switched off."),
    "C24": (T + "generated files and option sets, the command's output decoded and compared with detect_dialect", X,
            "Output is decoded independently of the formatter; the command runs in process through the application."),
    "C25": (T + "generated file names, contents and options, the generated program is executed and compared with read_table", X,
            "Programs are compiled and executed in scratch directories."),
    "C26": (T + "generated files and options, output compared with csv.writer of read_table's rows", X,
            "Oracle is the csv module's excel writer and reader on read_table's rows."),
    "C27": (T + "generated files with a fault or kill injected at each file-system step, original-or-complete predicate", X,
            "Faults are injected at every write, flush, close, chmod and rename call under the scratch directory by a preloaded shim."),
    "C28": (T + "generated files and options, rows handed to the viewer compared with read_table and its padded transpose", X,
            "The viewer is replaced by a recorder."),
    "C29": (T + "generated subsets of missing, broken and outdated packages, in fresh processes, differential against an unrestricted process", X,
            "Packages are hidden or replaced in the import system; the oracle is the same operation with everything installed."),
    "C30": (T + "generated programs of several objects, interleaved by generated schedules, nested and in threads, differential against each alone", X,
            "Schedules are sampled; thread switches are those of the interpreter at the shortest switch interval."),
    "C31": (T + "texts generated in and just outside each normal form, differential against a reference of the forms", X,
            "The reference is written from the definition of the forms; texts whose cell count the definition leaves open are excluded."),
}
