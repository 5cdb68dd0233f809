"""What each check runs: the harness entries, the covers that must be reached,
the bounds and the assumptions."""

COMMON = [
    "the LLVM IR that rustc emits for the harness crate (opt-level 1, fat LTO, debug assertions and overflow checks on, loop and SLP vectorisation off) stands for the source",
    "the semantics of LLVM IR as implemented by /verif/engine, and z3 4.8.12",
    "allocation never fails; one thread, except where the bounds name threads: these interleave before atomic operations only, with sequentially consistent memory",
]

# entry: name; covers: cover ids that must be reached (vacuity guard);
# time: budget in seconds (quick, thorough); opts: further engine options
def E(name, covers=(), time=(120, 400), opts=(), seeds=(0,), thorough_only=False, steps=None, default=True, crate=None):
    return dict(default=default, crate=crate, name=name, covers=list(covers), time=time, opts=list(opts), seeds=list(seeds),
                thorough_only=thorough_only, steps=steps)

CHECKS = {
    "C01": dict(
        entries=[
            E("c01_small", [0, 1], time=(150, 1200), seeds=(0, 1)),
            E("c01_atoms", [0, 1], time=(120, 1200)),
            E("c01_counted", [0, 1]),
            E("c01_bytes", [0, 1]),
            E("c01_text", [0, 1, 2, 3]),
            E("c01_deep", [0, 1], time=(150, 800)),
            E("c01_long", [0, 1]),
            E("c01_sets", [0, 1], time=(200, 600)),
            E("c01_endpoints", [0, 1], time=(120, 600)),
            E("c01_empty"),
            E("c01_threads", [0, 1]),
        ],
        bounds=[
            "every expression with at most 3 operators (concatenation, alternation, *, +, ?) over a, b, [ab], on every character input of at most 3 characters (thorough: 4 operators over a, b and inputs of at most 4)",
            "18 unusual atoms (overlapping, negated, multi-range, case-insensitive and boundary classes, empty parts, multi-byte characters) with at most 1 (thorough: 2) operators including counted repetition, inputs of at most 3 characters",
            "at most 2 operators including nested counted repetition over multi-symbol parts, inputs of at most 4 characters",
            "9 byte atoms including non-UTF-8 ones with at most 1 (thorough: 2) operators, every byte input of at most 3 bytes",
            "sets of 2 and 3 expressions with overlapping classes, inputs of at most 2 characters",
            "every class or pair of classes with 2 (thorough: 3) ranges in total whose endpoints take every relative order with and without gaps, including the last byte value; every input byte",
            "is_str_match on every text of at most 4 bytes for 4 character and 2 byte matchers",
            "20 larger expressions (nested repetitions, overlapping classes, alternations that share prefixes) on every input of at most 7 (two classes of symbols) to 4 (five classes or more) symbols (thorough: 9 to 5)",
            "two threads that build any two of 5 matchers at the same time, with at most 1 (thorough: 2) interruptions before any atomic operation, inputs of at most 2 characters",
            "counts of up to 65 with up to 2 arbitrary characters at the end, 6 words of up to 26 letters with an arbitrary character anywhere, in a matcher that is not the first one built",
        ],
        outside="larger expressions, longer inputs; two values of the hash seed of the builder's maps (one for most entries)",
        assumptions=["regex_syntax's parse of the text is the standard meaning; the reference evaluates its HIR directly"],
    ),
    "C02": dict(
        entries=[
            E("c02_pairs", [0, 1, 3, 5]),
            E("c02_triples", [0, 1, 3, 5]),
            E("c02_many", [0, 1, 2, 3, 4, 5]),
            E("c02_bytes", [0, 1, 3, 5]),
            E("c02_wide", [0, 1], steps=4000000000),
        ],
        bounds=[
            "every pair of 20 overlapping expressions and every triple of 6 (thorough: 9), with every assignment of 3 tags (repeats included), every character input of at most 2 characters, matched whole and symbol by symbol",
            "4 sets of 5 expressions (keywords against identifiers, duplicates, numbers) with 10 orders of the tags, every input of at most 3 characters",
            "262 expressions (260 characters, and ranges of them) with different tags, every input of one character",
            "every pair of 7 byte expressions with every assignment of 3 tags, every byte input of at most 3 bytes",
        ],
        outside="more expressions at once, longer inputs",
        assumptions=["regex_syntax's parse of the text is the standard meaning; the reference evaluates its HIR directly"],
    ),
    "C03": dict(
        entries=[E("c03_single", [0, 1, 2, 3], crate="par"), E("c03_pairs", [0, 1, 2, 3], crate="par"), E("c03_many", [0, 1, 2, 3], crate="par"),
                 E("c03_bytes", [0, 1, 2, 3], crate="par"), E("c03_threads", [0, 1, 2, 3], crate="par"), E("c03_auto", [0, 1, 3, 4], crate="par", time=(200, 600)), E("c03_wide", [0, 1, 3], crate="par", steps=4000000000), E("c03_lexer", [0, 1]), E("c03_lexer_bytes", [0, 1])],
        bounds=[
            "every expression with at most 2 (thorough: 3) operators over a, [ab] with *, ?, concatenation and alternation; every ordered pair of 12 overlapping expressions with both orders of tags; 6 sets of 3 to 5 expressions with every rotation of the tags; every ordered pair of 6 byte expressions; inputs of at most 2 or 3 (thorough: one more) arbitrary symbols, matched whole and symbol by symbol",
            "the tasks of the first 1 to 3 parallel stages in any order (up to 3 tasks: every permutation; more: any one first and the others forwards or backwards), those of later stages backwards",
            "the tasks of the first 1 to 3 (thorough: 4) stages in 2 or 3 threads with at most 2 interruptions each stage before any atomic operation, 4 sets of expressions, inputs of at most 2 symbols",
            "the automatic choice on 1 to 4 processors, on either side of its threshold",
            "261 expressions of 260 symbols with different tags, inputs of at most 2 characters, the first of two near the end of a range, one order of the tasks",
            "two lexers derived with enable_par true, false and absent, every input of at most 3 (thorough: 4) symbols",
        ],
        outside="threads between atomic operations (safe Rust shares nothing else there); larger sets and longer inputs; the schedules of rayon itself (a stand-in with its interface runs the tasks), and, for the derived lexers, other schedules than the one that happened when they were compiled",
        assumptions=["/verif/rayon_stub has the meaning of rayon's interface: each task of a stage runs exactly once, in some order"],
    ),
    "C04": dict(
        entries=[
            E("c04_chars", [0, 1, 2], time=(240, 800)),
            E("c04_small", [1, 2, 3]),
            E("c04_bytes", [0, 1, 2]),
        ],
        bounds=[
            "16 character matchers and 5 byte matchers, every history of 4 (thorough: 5 for characters) calls of is_accept on any symbol, reset and is_match, with is_final, is_state_final and is_match compared after each",
            "every expression with at most 2 (thorough: 3) operators over a, b, [ab], ab, every sequence of 3 characters fed one at a time",
        ],
        outside="longer histories, larger expressions",
        assumptions=["regex_syntax's parse of the text is the standard meaning; the reference computes liveness and acceptance from its HIR"],
    ),
    "C05": dict(
        entries=[
            E("c05_any", [0, 1, 2], time=(200, 800)),
            E("c05_constructs", [0, 1, 2], time=(200, 800)),
            E("c05_rejected"),
        ],
        bounds=[
            "every ASCII text of at most 1 character and every text of 2 characters significant to the syntax (thorough: any 2 ASCII characters, 3 of the core ones), in both modes, alone and among other expressions",
            "25 constructs of the syntax with 1 arbitrary ASCII character (or 2 significant ones) inside",
            "45 expressions that are never regular or never representable, in each mode that must reject them",
        ],
        outside="longer texts; whatever regex_syntax itself rejects is taken as invalid",
        assumptions=["regex_syntax decides what is valid syntax and the meaning of valid text"],
    ),
    "C06": dict(
        entries=[
            E("c06_lang", [0, 1, 2], time=(120, 850)),
            E("c06_overlap", [0, 1, 2], time=(120, 850)),
            E("c06_nullable", [0, 1, 2]),
            E("c06_wide", [0, 1, 2]),
            E("c06_literals", [0, 1, 2], time=(120, 850)),
            E("c06_bytes", [0, 1, 2], time=(120, 850)),
            E("c06_lines", [0, 1, 2], time=(120, 850)),
            E("c06_text", [0, 1, 2]),
            E("c06_long", [0, 1, 2]),
        ],
        bounds=[
            "8 derived lexers (a small language, overlapping rules in which the first counts, expressions that match nothing and no end-of-file, characters of every UTF-8 length, bytes, literals whose parsers may refuse, tokens and skipped text with line breaks anywhere in them for characters and bytes), every input of at most 3 (overlapping rules: 4; thorough: one more) symbols",
            "24 longer texts with up to 3 arbitrary symbols in them",
            "lexers with 255 to 258 table entries, near the limit of the element type, after at least 251 symbols followed by up to 3 arbitrary ones",
        ],
        outside="other enumerations; longer arbitrary inputs; tables of 65536 states",
        assumptions=["regex_syntax's parse of each rule is its standard meaning; whether a rule's parser accepts is taken from int_literal, str_literal and char_literal (C11, C12)", "an empty run is no token"],
    ),
    "C07": dict(
        entries=[
            E("c07_lang", [0, 1, 2], time=(120, 850)),
            E("c07_other", [0, 1, 2], time=(120, 850)),
            E("c07_bytes", [0, 1, 2], time=(120, 850)),
            E("c07_lines", [0, 1, 2], time=(120, 850)),
            E("c07_text", [0, 1, 2]),
            E("c07_reader", [0, 1, 2], time=(120, 850)),
        ],
        bounds=[
            "the lexers of C06, every input of at most 3 (thorough: 4) symbols, with what is consumed compared after every call",
            "21 texts of several lines with up to 3 arbitrary symbols in them",
            "through Reader and ByteReader, every input of at most 2 (thorough: 3) symbols",
        ],
        outside="other enumerations; longer arbitrary inputs; faults of the source",
        assumptions=["regex_syntax's parse of each rule is its standard meaning"],
    ),
    "C08": dict(
        entries=[
            E("c08_chars", [0, 1, 2, 3, 4, 5, 6]),
            E("c08_buffer", [0, 1, 2, 3, 5, 6]),
            E("c08_bytes", [0, 1]),
            E("c08_bytes_buffer"),
            E("c08_from", [0]),
        ],
        bounds=[
            "every byte stream of at most 5 (thorough: 7) bytes, every division into reads, a fault of any of 20 kinds (or a custom one, or one of the operating system, or none) at every position, read through next_char, next_char_loc, peek and iteration",
            "4 arbitrary bytes at every alignment around the end of the reader's 1024-byte buffer, the source leaving out up to 2 bytes of any read, with and without a fault there",
            "byte streams of at most 4 bytes likewise, and 3 bytes around the end of the buffer",
            "the readers made from strings, owned strings and slices on every text of at most 4 bytes",
        ],
        outside="longer streams away from the buffer's end",
        assumptions=["a failing source keeps failing; what a reader yields after the first error is not judged, except that invalid UTF-8 is never skipped silently"],
    ),
    "C09": dict(
        entries=[
            E("c09_chars", [0, 1, 2, 3, 4]),
            E("c09_bytes", [0, 1, 2, 3, 4]),
            E("c09_text", [0]),
        ],
        bounds=[
            "every text of at most 3 bytes and every history of 5 (thorough: 7) calls of next_char_loc, next_char, next_span, unread (of what was read, or of another character and location), peek, peek_with_span, set_line_col with any position below 2^31",
            "every ASCII text of at most 5 characters read to the end, pushed back to the start and read again",
        ],
        outside="longer texts and histories; positions above 2^31",
        assumptions=["characters are pushed back with the location they were read with, unless that location is itself what is checked"],
    ),
    "C10": dict(
        entries=[
            E("c10_chars", [0, 1, 2]),
            E("c10_bytes", [0, 1, 2]),
        ],
        bounds=["every text (or byte string) of at most 5 (thorough: 7) bytes, every helper of InputStream as overridden and as defaulted, with a predicate answering arbitrarily on each call"],
        outside="longer inputs",
        assumptions=[],
    ),
    "C11": dict(
        entries=[
            E("c11_any", [0, 1, 2]),
            E("c11_signed_any", [3, 4, 5]),
            E("c11_long", [0, 1, 2, 3, 4, 5]),
        ],
        bounds=[
            "every integer type (i8..i128, u8..u128, isize, usize), both helpers",
            "every UTF-8 text of at most 5 bytes (thorough: 6)",
            "texts as long as the type's largest and smallest value in radix 2, 8, 10, 16 with every sign, whose first and last digit (thorough: also the middle one) are arbitrary ASCII characters and the others those of the limit, with and without one more leading character",
        ],
        outside="longer texts with other digits in the middle",
        assumptions=["the reference converts by checked 128-bit accumulation"],
    ),
    "C12": dict(
        entries=[
            E("c12_str_any", [0, 1]),
            E("c12_char_any", [2, 3]),
            E("c12_str_escape", [0, 1]),
            E("c12_char_escape", [2, 3]),
            E("c12_round_trip", [0, 1]),
        ],
        bounds=[
            "every UTF-8 text of at most 8 bytes (thorough: 10)",
            "quoted texts holding a backslash, \\x or a plain character followed by at most 3 arbitrary characters, with and without an arbitrary character after the closing quote",
            "Unicode escapes with at most 4 (thorough: 6) arbitrary ASCII characters between the braces, after the digits '', 'd', '10', '7' or 9 zeros, and with an arbitrary ASCII character, then 2 to 30 zeros and at most 3 arbitrary ones",
            "every character value written literally (where allowed) and as a Unicode escape in both cases",
        ],
        outside="longer texts; more than one long escape in one string",
        assumptions=["raw line feed, carriage return and tab are not allowed inside literals, as the code and its tests have it"],
    ),
    "C13": dict(
        entries=[E("c13_buffer", [0, 1, 2, 3, 4, 5, 6, 7], time=(150, 850)), E("c13_default", [0, 1, 2, 3, 4, 5, 6, 7], time=(150, 850)), E("c13_far", [0])],
        bounds=[
            "TokenBuffer, and a stream with only the default methods, over every stream of 3 arbitrary tokens or errors, every history of 5 (thorough: 6) calls of next_token, unread (of the last token read or a new one), peek, peek2, peek_n, expect of any kind, skip_until and collect_until with any stopping kind, then reading to the end",
            "two peeks at any distance up to 7 over 6 tokens or errors",
        ],
        outside="longer histories",
        assumptions=["a tokenizer's error takes one call, after which it goes on; tokens' kinds are arbitrary bytes"],
    ),
    "C14": dict(
        entries=[E("c14_buffer", [0, 1, 2]), E("c14_default", [0, 1, 2]), E("c14_peek", [3]), E("c14_twice")],
        bounds=["every stream of 5 arbitrary tokens or errors, every chain of at most 5 (thorough: 7) queries of 4 token types, with and without a token pushed back before, ended by result or dropped, with peeks in between; then reading to the end", "two chains of 2 queries in a row after a peek at any distance up to 3"],
        outside="longer chains",
        assumptions=["a chain whose answer already is no may, but need not, ask the tokenizer"],
    ),
    "C15": dict(
        entries=[E("c15_simple", [0, 1]), E("c15_sep", [0, 1]), E("c15_other", [0, 1]), E("c15_iter", [0, 1, 2, 3, 4, 5])],
        bounds=["40 types built from all combinators (nested, with elements and separators of one and two tokens, tuples of 1 to 7 and 26 parts), every stream of 10 (thorough: 12) arbitrary tokens, over TokenBuffer and a stream with only the default methods", "iteration and conversion of the 5 containers over 5 arbitrary tokens"],
        outside="longer streams; other element types",
        assumptions=["the shapes are decided by the next tokens alone (maybe), as documented"],
    ),
    "C16": dict(
        entries=[E("c16_tokens", [0, 1, 2]), E("c16_ast", [0, 1, 2]), E("c16_derived", [0, 1, 2])],
        bounds=["7 token and basic types, 22 types built from the combinators, 11 derived types, over every stream of 6 (thorough: 8) arbitrary tokens or errors, with and without a token pushed back before and another question after; TokenBuffer and a stream with only the default methods"],
        outside="longer streams; other types",
        assumptions=["a token prefix is a single token, as documented"],
    ),
    "C17": dict(
        entries=[E("c17_structs", [0, 1]), E("c17_enums", [0, 1]), E("c17_expr", [0, 1]), E("c17_term", [0, 1])],
        bounds=["13 derived structures and enumerations (named, tuple and unit forms, starting tokens, const parameters, unreachable and unit variants, recursion, lists within lists), every stream of 8 (thorough: 10) arbitrary tokens, over TokenBuffer and a stream with only the default methods"],
        outside="longer streams; other types",
        assumptions=["the reference grammar is written by hand next to each type"],
    ),
    "C18": dict(
        entries=[E("c18_tokens", [0, 1]), E("c18_kinds", range(13)), E("c18_equal", [0, 1]), E("c18_display", range(13)), E("c18_unwrap", [0, 1, 2, 3])],
        bounds=["tokens over 4 kind types (bytes, 64-bit numbers, an enumeration with data, a type with an equality of its own) with arbitrary kinds, locations and base spans", "derived kinds with every form of variant (unit, one value, several values, named fields, references, generics, several variants of one type, generated conversions disabled), arbitrary values of each, every conversion from and to every carried type, and the text of each"],
        outside="other kind types; texts of more than a few bytes",
        assumptions=[],
    ),
    "C19": dict(
        entries=[E("c19_ast", [0, 1]), E("c19_vec", [0, 1]), E("c19_tuples", [0]), E("c19_derived", [0]), E("c19_fields", [0]), E("c19_update", [0])],
        bounds=["34 types built from all provided combinators parsed from every stream of at most 10 (thorough: 12) arbitrary tokens", "vectors of up to 4 elements with and without parts in every combination", "tuples of 1 to 26 parts with arbitrary spans", "derived structures and enumerations with every combination of optional and possibly empty fields present and absent, spans with arbitrary locations", "updating, joining and comparing spans with arbitrary locations and characters"],
        outside="longer vectors, other types",
        assumptions=["a token's own span is given by the tokenizer"],
    ),
    "C20": dict(
        entries=[E("c20_threads", [0, 1]), E("c20_histories", [0, 1]), E("c20_derived", [0, 1]), E("c20_reader", [0, 1]), E("c20_summary", [0]),
                 E("c20_histories", [0, 1], default=False), E("c20_derived", [0, 1], default=False), E("c20_reader", [0, 1], default=False)],
        bounds=["two threads that log once each, in any two of 7 ways and through two spans, with at most 2 (thorough: 3) interruptions before any atomic operation, those of the standard library included",
                "every history of 3 (thorough: 4) of the 8 ways to log, through any of 6 spans of two sources, with a source's first span dropped in between; with the logger and without", "copies of copies made in any of 11 ways, logging through any of them after others are gone", "every byte text of at most 3 bytes through Reader, with errors logged at any character in between", "summaries of up to 12 errors and 12 warnings, with and without colours"],
        outside="longer histories; messages of any length (their text is fixed)",
        assumptions=["what the summary says when nothing was logged is not judged"],
    ),
    "C21": dict(
        entries=[E("c21_read", [0, 1, 2], time=(150, 700)), E("c21_line", [0, 1, 2]), E("c21_lines", [0, 1, 2, 3]), E("c21_many", [1, 2, 3]), E("c21_anywhere", [0, 1, 2, 3]), E("c21_other", [0]),
                 E("c21_invalid", [0, 1]), E("c21_raw", [0]), E("c21_message", [0], default=False)],
        bounds=[
            "every text of at most 4 (thorough: 5) characters of 10 classes (any printable ASCII character, tab, line feed, carriage return, other control characters, Latin-1 letters, wide ideographs, emoji, combining characters, the byte-order mark) read from a file, with a span from any character (or the end) to any later one",
            "lines of up to 6 characters and lines among others with 2 such characters in them; any two positions of a text of 13 lines and beyond; texts of 101 lines around the changes of the number of digits; any position of at most one digit, and far away ones, in texts of 2 characters",
            "every kind of message with any character in it, with and without colours, from buffers, standard input, missing files and files that are not UTF-8; without the logger, the text of the errors, with messages of any 3 ASCII characters",
        ],
        outside="longer texts; the widths of characters of other blocks (unicode-width's tables); lines beyond the 10 millionth",
        assumptions=["the frame around the quoted text, and the marks of spans over several lines, are as the code has them; nothing but the message and position is judged for spans that do not lie in the text", "columns are those of Reader (characters)", "the file's reading is modelled: open, read and close of one file"],
    ),
    "C22": dict(
        entries=[E("c22_table", [0, 1], time=(120, 700)), E("c22_sets", [0, 1]), E("c22_bytes", [0, 1]), E("c22_forms"), E("c22_forms_bytes"),
                 E("c22_forms_small", time=(120, 600)), E("c22_direct"), E("c22_nothing", [0])],
        bounds=["every expression with at most 3 (thorough: 4) operators over a, b, [ab] and 24 sets of tagged expressions (18 over characters, in both orders, 6 over bytes): every state and every symbol of the table, and its size",
                "all forms of those sets on every input of at most 3 (thorough: 4) symbols, and of every expression with at most 3 (thorough: 4) operators over a, [ab]",
                "6 shapes of directly built expressions with one or two ranges in any order between 4 (thorough: 6) endpoints, inputs of at most 2 bytes"],
        outside="larger sets and longer inputs",
        assumptions=["the smallest automaton counts no dead state", "tags other than numbers behave alike"],
    ),
    "C23": dict(
        entries=[E("c23_history", [0, 1, 2]), E("c23_multi", [0, 1]), E("c23_closures", [0, 1], time=(120, 800)), E("c23_dense", [0, 1]),
                 E("c23_dump", [0, 1]), E("c23_dump_compiled", [0]), E("c23_dump_fails", [0, 1])],
        bounds=["every history of 3 (thorough: 4) operations on a nondeterministic automaton, unions included, and on a deterministic one with arbitrary symbols",
                "every graph of 3 states and 3 (thorough: 4) edges, two queries of any sets with one cache", "dumps of every automaton of 3 states with at most 2 edges and of 4 compiled expressions; writers that fail at any byte"],
        outside="larger automata, longer histories",
        assumptions=["the layout of a dump is that of a Graphviz graph as the code has it"],
    ),
    "C24": dict(
        entries=[E("c24_equal", [0, 1]), E("c24_print", [0, 1, 2, 3]), E("c24_files", [0]), E("c24_path", [0, 1]), E("c24_results", [0, 1]), E("c24_build", [0, 1, 2, 3, 4]),
                 E("c24_results", [0, 1], default=False)],
        bounds=["any two spans of seven sources (two buffers, two standard inputs, files of equal and different names), whatever was logged, with arbitrary 32-bit lines and columns", "printing of any coordinate in 4 ranges of 65536 values (zero, around 10^8 and 10^9, up to 2^32-1)", "sources with names of 1 to 4 printable characters", "all ways to log, with and without the logger", "up to 3 expressions out of 9 (valid, syntactically wrong, unsupported, matching nothing) with tags 0 and 1, both build modes"],
        outside="other values of printed coordinates; other faulty expressions",
        assumptions=["which of several faulty expressions is reported is not judged", "file names are ASCII; the file's reading is modelled: open, read and close of one file"],
    ),
    "C25": dict(
        crate="mac",
        entries=[E("c25_tokenize", [0, 1]), E("c25_variants", [0, 1]), E("c25_types", [0, 1]), E("c25_expression", [0, 1], time=(120, 900)), E("c25_parse", [0, 1]),
                 E("c25_spanned", [0, 1]), E("c25_kind", [0, 1]), E("c25_prompt", [0], time=(120, 600)), E("c25_ast", [0, 1])],
        bounds=["derive(Tokenize): 11 combinations of attributes of the enumeration, 22 of a variant, 6 forms of fields; any two variants of these (thorough: with any fields); generics; other types; as patterns every text of at most one printable ASCII character and of at most 2 (thorough: 3) of 19 characters with a meaning",
                "derive(Parse): 12 combinations of attributes, 8 types, 5 lists of generics with and without bounds", "derive(Spanned): up to 3 fields, named or not, each with any of 4 combinations of attributes, in structures and variants; other types",
                "token_kind: up to 2 variants of 6 forms, other types, arguments; texts of one line of at most 2 (thorough: 3) printable ASCII characters or two lines of one, names of at most 3 letters", "token_ast: any one part (attributes, visibility, keyword, path, arms, what follows) out of up to 17 forms"],
        outside="other declarations; whether the given code type-checks (the derives are compiled and run for C06 to C19)",
        assumptions=["the macros' code runs with proc-macro2 outside the compiler and syn's own parser of its token streams; spans of compile errors are not judged", "rayon is replaced by a serial stand-in"],
    ),
}

NA = {}
