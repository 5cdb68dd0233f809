import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="laps_regex/src/"
p("C01","A compiled regex matcher accepts exactly the language of its regexes",
 "For every set of regular expressions a matcher is built from, and every input, whole-input matching (over characters or over bytes) reports a match exactly when the input belongs to the language of at least one of the expressions. Concatenation, alternation, repetition, optional parts, counted repetition, groups, character classes and their overlaps all keep their standard meaning in every combination, and building a matcher never panics.",
 ["inputs","programs"],"all regular expressions in the supported syntax, all combinations of them in one matcher, all input strings / byte strings",
 "The tests compile about a dozen fixed regexes and match a handful of strings; combinations of operators and overlapping classes times all inputs are unbounded.",
 [R+"re.rs",R+"mir.rs",R+"nfa.rs",R+"dfa.rs",R+"table.rs"],
 [("HIR to MIR lowering and class splitting","laps_regex/src/mir.rs Mir::from_hir, optimize"),("Thompson construction","laps_regex/src/nfa.rs"),("subset construction and minimisation","laps_regex/src/dfa.rs"),("symbol equivalence classes and table lookup","laps_regex/src/table.rs")],
 ["RegexMatcher::is_match / is_str_match"])
p("C02","Where several regexes match, the smallest tag is reported",
 "When an input belongs to the languages of several of the expressions a matcher was built from, the tag reported is the smallest tag among all the expressions that match it, whatever order they were added in and even when expressions are identical or overlap.",
 ["inputs","programs"],"all sets of tagged regular expressions (including duplicates and overlaps), all tag assignments and insertion orders, all inputs",
 "Existing tests use a few tag sets in ascending order with two or three inputs; duplicates, shared sub-alternatives and descending orders are not reached.",
 [R+"mir.rs",R+"dfa.rs",R+"table.rs"],[("tag selection when building accepting states","laps_regex/src/dfa.rs"),("duplicate removal across alternatives","laps_regex/src/mir.rs")],["RegexMatcher::is_match / is_str_match / is_final"])
p("C03","Matchers do not depend on serial or parallel construction",
 "For every set of regular expressions, building the matcher with parallel construction enabled or disabled, under every scheduling of the parallel work, yields matchers that give the same answer (match, tag, liveness) on every input.",
 ["schedules","configurations","inputs"],"all regex sets, serial / parallel / automatic construction, every order in which parallel tasks complete, all inputs",
 "Tests run one schedule per machine and never compare the two construction modes.",
 [R+"re.rs",R+"dfa.rs"],[("parallel subset construction and partition refinement","laps_regex/src/dfa.rs"),("construction mode selection","laps_regex/src/re.rs")],["RegexBuilder::enable_par, RegexMatcher"])
p("C04","Feeding a matcher symbol by symbol agrees with whole-input matching",
 "After any sequence of symbols has been fed one at a time, the matcher's acceptance answer is true exactly when that sequence is a prefix of some matching input, and its final answer is exactly what whole-input matching reports for that sequence. A rejected symbol leaves the matcher where it was, resetting returns it to the initial state, and a whole-input match gives the same answer regardless of what was fed before and does not disturb the symbols fed.",
 ["inputs","histories"],"all regex sets, all symbol sequences and interleavings of feed / query / reset / whole-match calls",
 "The lexer relies on per-symbol liveness (the maximal-munch decision) for every prefix, tests only check complete matches.",
 [R+"re.rs",R+"table.rs",R+"dfa.rs"],[("RegexMatcher::is_accept / is_final / reset","laps_regex/src/re.rs"),("dead state removal","laps_regex/src/dfa.rs")],["RegexMatcher::is_accept, is_final, reset, is_match"])
p("C05","Unsupported regexes are rejected instead of being mis-compiled",
 "Building a matcher from regex text either succeeds with a matcher for the standard meaning of that text or returns an error; text that is not a valid regex, uses anchors, look-around or other operations outside regular languages, or cannot be represented in the requested mode (characters or bytes) always returns an error, and no text makes the builder panic.",
 ["inputs","programs"],"all regex source texts, both build modes, with or without other expressions in the same builder",
 "The tests try one or two malformed texts.",
 [R+"re.rs",R+"mir.rs"],[("error mapping","laps_regex/src/re.rs Error"),("rejecting look-around and non-UTF-8","laps_regex/src/mir.rs")],["RegexBuilder::build / build_bytes"])
p("C06","A derived lexer tokenises by maximal viable run, first rule and skip rules",
 "For every input, a derived lexer repeatedly consumes the longest run of symbols that is still a prefix of some token or skipped pattern; if that run is not empty and matched by a token pattern it yields the kind of the first declared variant matching it, carrying the exact consumed text, if by a skip pattern it yields nothing, and otherwise it reports an error through the reader. When the input is exhausted it yields the end-of-input kind, and keeps doing so. This holds whatever the number and size of the patterns.",
 ["inputs","programs"],"all token enumerations accepted by the derive (character and byte lexers), all inputs",
 "Tests tokenise a few fixed texts with two enumerations; the tables the derive embeds are never compared with the patterns they come from over all inputs.",
 ["laps_macros/src/tokenize.rs","src/lexer.rs",R+"table.rs"],[("generated next_token loop","laps_macros/src/tokenize.rs"),("embedded tables and their integer type","laps_macros/src/tokenize.rs"),("Lexer","src/lexer.rs")],["Tokenizer::next_token on the derived Lexer"])
p("C07","Lexing loses nothing and every token's span covers exactly its text",
 "For every input, the tokens produced by a derived lexer together with the skipped and erroneous runs between them concatenate to exactly the input, in order. Each token's span starts at the line and column of its first character and ends at that of its last one, and the end-of-input token's span is the position at which the input ended.",
 ["inputs"],"all inputs (all characters, line breaks, multi-byte text) to a derived lexer",
 "Tests check spans on a few one- or two-line inputs.",
 ["laps_macros/src/tokenize.rs","src/lexer.rs","src/span.rs","src/input.rs"],[("span begin/update in generated code","laps_macros/src/tokenize.rs"),("Location update","src/span.rs")],["Token::span, Token::kind"])
p("C08","Readers decode every byte stream exactly, however it is chunked",
 "For every byte stream and every way the underlying source splits it into reads, a character reader yields exactly the characters of the stream's UTF-8 decoding and then end of input, and a byte reader yields exactly its bytes; the result never depends on the chunking. If the stream is not valid UTF-8 or the source fails, the characters before the fault are yielded first and then an error is returned (never a panic, a wrong character or a silent end); invalid UTF-8 keeps being reported.",
 ["inputs","fault_sequences"],"all byte streams, all partitions into reads (including one byte at a time), all fault positions",
 "Tests read complete strings from in-memory sources that return everything in one read, so neither split characters nor buffer boundaries nor faults are exercised.",
 ["src/reader.rs"],[("buffer refill and incomplete sequence handling","src/reader.rs Reader"),("ByteReader","src/reader.rs")],["InputStream::next_char / Iterator of the readers"])
p("C09","The reader's position always equals the position of the consumed text",
 "After any sequence of read, push-back, peek, skip and explicit repositioning calls, the reported position and span equal what is obtained by walking line by line over exactly the characters consumed and not pushed back since the last repositioning (line and column start at the documented values, a line break starts a new line). Pushed-back characters are re-read in last-in first-out order, peeking never changes the position or what is read next, and pushing a character back restores the position before it was read.",
 ["inputs","histories"],"all character streams and all histories of read / unread / peek / set-position calls",
 "Tests perform a few fixed call sequences on fixed inputs.",
 ["src/input.rs","src/reader.rs","src/span.rs"],[("Location::update","src/span.rs"),("unread and location stack","src/input.rs, src/reader.rs")],["InputStream methods, Span"])
p("C10","Input helpers consume exactly the characters they are documented to consume",
 "For every input, the skipping and collecting helpers of an input stream (skip until, collect until, skip line, next/peek with span and similar) consume exactly the characters up to their documented stopping point, ask the caller's predicate about each of them once and in order, return exactly the collected characters, leave the stopping character unread where documented, and report the span covering exactly what was collected.",
 ["inputs"],"all inputs, all stopping predicates",
 "Tests call each helper on one or two strings.",
 ["src/input.rs","src/reader.rs"],[("default methods of InputStream","src/input.rs")],["InputStream::skip_until, collect_until, collect_with_span_until, ..."])
p("C11","Integer literals convert exactly or are rejected",
 "The unsigned and signed integer-literal helpers map text to the value it denotes (decimal digits, or 0x/0o/0b and digits of that radix, with an optional sign for the signed helper) whenever that value fits the requested integer type, and return nothing for every text that is not such a literal or whose magnitude does not fit. Apart from the documented wrapping negation of a '-' literal of an unsigned type they never wrap, and they never saturate or panic, for any integer type.",
 ["inputs"],"all texts, all integer result types",
 "Tests try around twenty literals of one or two types; boundaries of every type and every malformed text are not settled by samples.",
 ["src/lexer.rs"],[("int_literal / signed_int_literal","src/lexer.rs")],["laps::lexer::{int_literal, signed_int_literal}"])
p("C12","String and character literals unescape exactly or are rejected",
 "The string and character literal helpers return exactly the text denoted by a well-formed quoted literal (the documented escapes, including hexadecimal and Unicode escapes) and return nothing for every text that is not a well-formed literal of that kind. Every character value round-trips when written literally or as an escape, and no text makes them panic or yield an invalid character.",
 ["inputs"],"all texts",
 "Tests cover a dozen literals.",
 ["src/lexer.rs"],[("str_literal / char_literal / escape parsing","src/lexer.rs")],["laps::lexer::{str_literal, char_literal}"])
p("C13","A token buffer behaves as a pure queue over its tokenizer",
 "For every history of next, unread, peek, peek2, multi-token peek and expect calls on a token buffer, the tokens obtained are exactly those of the wrapped tokenizer in order with unread tokens re-delivered last-in first-out; peeking at any distance never loses, duplicates or reorders tokens, also when the tokenizer reports an error part-way. Expecting a token succeeds exactly when the next token's kind equals the expected one and otherwise reports an error.",
 ["histories","inputs","fault_sequences"],"all token streams, all histories of buffer operations, all positions of tokenizer errors",
 "Tests use a few fixed histories and no tokenizer errors.",
 ["src/token.rs"],[("TokenBuffer","src/token.rs"),("TokenStream default methods","src/token.rs")],["TokenStream methods of TokenBuffer"])
p("C14","Lookahead leaves the token stream untouched and answers exactly",
 "A lookahead chain over a token stream answers true exactly when the upcoming tokens match the queried kinds or parsers one after another from the current position, and after the lookahead ends the token stream delivers exactly the same tokens as if it had never happened, however many steps were taken and whatever their outcome, including tokenizer errors.",
 ["inputs","histories","fault_sequences"],"all token streams, all lookahead chains",
 "Tests exercise lookahead through two example grammars only.",
 ["src/token.rs","src/parse.rs","src/ast.rs"],[("lookahead and result","src/token.rs"),("token unread on finish","src/token.rs")],["TokenStream::lookahead"])
p("C15","AST combinators build exactly the documented sequences",
 "For every token stream, parsing one of the provided AST combinators (optional, possibly-empty and non-empty repetition, separated lists with or without trailing or leading separators, prefixed and quoted items, boxed, vector and tuple forms) consumes exactly the longest token sequence of its documented shape (deciding by the next tokens alone: a separator commits to another element where the shape requires one), yields the elements in source order, leaves the following token unread and fails exactly when the documented shape is not present. Sequence containers report the right length and emptiness, iterate and convert in order.",
 ["inputs","programs"],"all token streams over a token alphabet, all element parsers of fixed shape",
 "Tests parse a handful of fixed streams for some of the combinators.",
 ["src/ast.rs"],[("Parse impls of Opt/NonEmpty/SepSeq/Quoted/Prefix types","src/ast.rs")],["Parse::parse for ast types"])
p("C16","Speculative parsing answers exactly and never moves the stream",
 "Asking any provided, token-derived or grammar-derived AST type whether it may start at the current position never changes the tokens that are delivered afterwards, even when the tokenizer fails while the question is answered, and answers true exactly when the type's first token(s) may begin there according to its definition.",
 ["inputs","programs","fault_sequences"],"all AST types built from the combinators and derives, all token streams, all error positions",
 "Tests only ask it on accepted inputs and never with tokenizer errors.",
 ["src/ast.rs","src/parse.rs","laps_macros/src/parse.rs","laps_macros/src/token_ast.rs"],[("Parse::maybe impls","src/ast.rs, laps_macros/src/parse.rs")],["Parse::maybe"])
p("C17","Derived parsers recognise exactly the grammar their types describe",
 "For every token stream, a derived parser for a structure parses its fields in order, and for an enumeration selects the first variant (in declaration order) whose start matches, falling back as documented; it yields exactly the tree whose tokens are the consumed prefix of the stream, consumes nothing beyond it, honours the starting-token attribute and type parameters, and fails with an error whenever no alternative applies.",
 ["inputs","programs"],"all derived grammars, all token streams",
 "Tests run two example grammars on fixed inputs.",
 ["laps_macros/src/parse.rs","laps_macros/src/token_ast.rs","src/parse.rs"],[("generated parse and maybe","laps_macros/src/parse.rs"),("generated token AST types","laps_macros/src/token_ast.rs")],["Parse::parse of derived types"])
p("C18","Token and token-kind comparisons and conversions are consistent",
 "Token equality, hashing and comparison with kinds depend only on the kind, never on the span, and equal tokens always hash equally. For a derived token kind, converting a value into the kind and back, borrowing or testing it, succeeds exactly for the variant declared to carry that value and returns that value unchanged, and the kind displays as documented.",
 ["inputs","programs"],"all tokens with all kinds and spans, all derived token kinds",
 "Tests check one or two concrete pairs.",
 ["src/token.rs","laps_macros/src/token_kind.rs"],[("PartialEq / Hash of Token","src/token.rs"),("generated From / TryFrom / AsRef / Display","laps_macros/src/token_kind.rs")],["Token, derive(TokenKind)"])
p("C19","Spans of composite values cover exactly their parts",
 "The span of any composite AST value (derived or provided, including sequences, options and nested forms) starts where its first present part starts and ends where its last present part ends, whichever optional or possibly-empty parts are absent; asking for an optional span returns nothing exactly when no part is present, and span updating and joining keep start and end at the right parts.",
 ["inputs","programs"],"all composite values, every combination of present and absent parts, all part positions",
 "Tests check a few fully populated values.",
 ["laps_macros/src/spanned.rs","src/span.rs","src/ast.rs"],[("generated span / try_span","laps_macros/src/spanned.rs"),("Span::update / update_span / into_updated","src/span.rs"),("Spanned / TrySpan impls","src/ast.rs, src/span.rs")],["Spanned::span, TrySpan::try_span, Span::update"])
p("C20","Errors and warnings are counted exactly across all sharing spans",
 "For every history of errors and warnings logged through any clone or derived copy of a span, the reported totals, seen through any of them, equal the numbers actually logged; spans of another reader are unaffected, and fatal errors count as errors.",
 ["histories","configurations"],"all histories of logging calls over clones of spans, with or without colour/logger features",
 "Tests log a couple of messages and read one total.",
 ["src/span.rs"],[("shared error / warning counters","src/span.rs")],["Span::error_num, warning_num"])
p("C21","Rendering a diagnostic shows the spanned source text and never panics",
 "Logging an error or warning on any span obtained by reading any input, including empty input, end of input, multi-line spans, zero-width, tab and wide characters, never panics; the rendered message names the right file, line and column, quotes the right lines with their numbers, and for a span within one line underlines exactly the columns the span covers (at least one); a span over several lines marks the last column of its first and of its last character.",
 ["inputs"],"all inputs and all spans obtainable from reading them",
 "Tests print diagnostics for a few ASCII inputs without checking the rendering.",
 ["src/span.rs"],[("line info printing","src/span.rs")],["Span::log_error and its output"])
json.dump
p("C22","All forms of a compiled set of expressions are one automaton, and the smallest",
 "For every set of expressions, the nondeterministic automaton, its closures, the deterministic automaton and the transition table obtained from them through the public API accept the same inputs with the same smallest tags. Read as documented, the table's symbol map, rows, initial state and tags (which is all a generated lexer keeps of it) give exactly the answers of its own lookups for every state and every symbol; unknown states and symbols lead nowhere. The deterministic forms have the fewest states possible and the table the fewest symbol classes, and building from parts that match nothing is an error.",
 ["inputs","programs"],"all sets of tagged expressions, parsed or built directly from ranges in any order, all states and symbols, all inputs",
 "The tests dump a few automata at most and never compare one form with another; the table's parts are only used by generated lexers over a few texts.",
 [R+"mir.rs",R+"nfa.rs",R+"fa.rs",R+"dfa.rs",R+"table.rs"],
 [("normalising and optimising expressions","laps_regex/src/mir.rs optimize"),("Thompson construction","laps_regex/src/nfa.rs"),("closures","laps_regex/src/fa.rs ClosureBuilder"),("minimisation","laps_regex/src/dfa.rs Minimizer"),("table layout","laps_regex/src/table.rs")],
 ["NFA, DFA, StateTransTable and their parts"])
p("C23","Automata hold exactly what they are told",
 "After any sequence of operations (adding states and edges, marking final states, taking another automaton in), an automaton of the library holds exactly the states, edges and final states those operations gave it and nothing else; union keeps all of both; epsilon and symbol closures are exactly the reachable sets, however often and in whichever order they are asked for with the same cache; a dump shows exactly the automaton's edges and final states, and fails when its writer does.",
 ["inputs","histories","fault_sequences"],"all histories of operations over automata, all graphs, all writers that fail at any point",
 "No test uses the automaton library by itself.",
 [R+"fa.rs",R+"nfa.rs",R+"dfa.rs"],
 [("states and edges","laps_regex/src/fa.rs State, DenseFA, MultiFA"),("cached closures","laps_regex/src/fa.rs ClosureBuilder"),("dumping","laps_regex/src/fa.rs dump")],
 ["DenseFA, MultiFA, ClosureBuilder"])
p("C24","Positions, sources and errors compare and print exactly",
 "Two spans are equal exactly when they are of the same source and have the same start and end. A location prints as line:column and a span as start-end, for every value of them; a source prints as its path, <stdin> or <buffer>, and readers are of the source they were made from, or fail when it cannot be opened. What a logging call returns tells whether the error was fatal. Building a matcher from faulty expressions fails with an error about one of them, of its own kind, that carries that expression's tag where it names one and prints its cause.",
 ["inputs","programs"],"all spans, locations and sources, all ways to log, all sets of expressions with faults of different kinds",
 "Tests compare and print a few values.",
 ["src/span.rs","src/reader.rs",R+"re.rs",R+"mir.rs"],
 [("equality and Display of Location, Span, FileType, Error","src/span.rs"),("readers' sources","src/reader.rs"),("build errors","laps_regex/src/re.rs Error, laps_regex/src/mir.rs Error")],
 ["PartialEq / Display of Span, Location, FileType; RegexBuilder::build's errors"])
p("C25","The macros take exactly the declarations they are documented for",
 "For every declaration, each derive and macro (Tokenize, Parse, Spanned, token_kind, token_ast) either gives a well-formed implementation of its trait for exactly the declared type, with its generic parameters and bounds, or refuses with a compile error; it refuses whenever an attribute is malformed, repeated or contradicts the variant or field it is on (a parser or skip pattern on the wrong kind of variant, no field that surely has a span, two ends of input, a guard without a prompt), when the type is of the wrong kind, or when a pattern is not a supported expression, and accepts everything else. The text a kind prints is derived from its documentation or name for every such text. No declaration makes a macro panic.",
 ["programs","inputs"],"all declarations: kinds of types, attributes in any combination and order, fields, generics, patterns, documentation texts and names",
 "Tests derive for a few well-formed types and one that must not compile.",
 ["laps_macros/src/tokenize.rs","laps_macros/src/parse.rs","laps_macros/src/spanned.rs","laps_macros/src/token_kind.rs","laps_macros/src/token_ast.rs","laps_macros/src/utils.rs"],
 [("attributes of lexers","laps_macros/src/tokenize.rs EnumInfo, VariantInfo"),("attributes and generics of parsers","laps_macros/src/parse.rs"),("fields with spans","laps_macros/src/spanned.rs"),("texts of kinds","laps_macros/src/token_kind.rs, utils.rs"),("token_ast's grammar","laps_macros/src/token_ast.rs")],
 ["the token streams the macros give"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
