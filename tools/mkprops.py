import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/log_surgeon/"
F=S+"finite_automata/"
NOTEST="The existing suite never parses a single log byte: it only inspects one schema's syntax tree, one automaton dump and the prefix-tree/register helpers. "
p("C01","Parsing is lossless: event texts concatenate to the input",
 "For every accepted schema and every input byte sequence, parsing runs to completion and the raw texts of the produced log events, concatenated in order, are exactly the input bytes: nothing lost, duplicated, reordered or altered. Within each event the tokens are adjacent and concatenate to that event's text, for both the reader-driven and the buffer-driven parser, and also for single tokens, events or whole inputs far larger than the parser's internal buffers.",
 ["inputs","configurations"],"all schemas x all byte strings (short adversarial ones to multi-buffer ones) x both parser front ends",
 NOTEST+"Losslessness has to hold for every byte string and every alignment of tokens with the rotating input buffer.",
 [S+"Lexer.tpp",S+"LogParser.cpp",S+"ParserInputBuffer.cpp",S+"Token.cpp",S+"LogEvent.cpp",S+"LogParserOutputBuffer.cpp"],
 [("uncaught-text token spans last match end to next match start","Lexer::scan"),("event cut puts '\\n' in previous event, remainder in next","LogParser::parse"),("token text across buffer wrap","Token::to_string_view"),("output buffer growth","LogParserOutputBuffer::advance_to_next_token")],
 ["LogEventView::to_string","LogEventView::get_log_output_buffer"])
p("C02","Event boundaries follow timestamps, else newlines",
 "A timestamp at the very start of the input or directly after a newline starts a new log event, which then extends (newlines included) up to the newline before the next such timestamp or the end of input; until the first timestamp is found every newline ends an event, blank lines included. The event's timestamp is reported exactly when it begins with one, and it is reported as multi-line exactly when it has a timestamp and text after its first newline. A timestamp pattern never ends or starts an event anywhere else.",
 ["inputs","configurations"],"all schemas with zero or more timestamp patterns (which may contain delimiters) x all inputs mixing lines with and without timestamps, blank lines, partial timestamps, missing final newline",
 NOTEST+"Boundary decisions depend on unbounded lookahead after each newline and on parser mode (timestamp seen or not).",
 [S+"LogParser.cpp",S+"Lexer.tpp",S+"LogEvent.cpp","docs/schema.md","docs/parsing-constraints.md"],
 [("first/newline timestamp rules","LogParser::add_rules"),("start-of-next-message detection","LogParser::parse"),("multiline flag","LogParser::generate_log_event_view_metadata")],
 ["LogEventView::to_string","LogEventView::get_timestamp","LogEventView::is_multiline"])
p("C03","Variables are exactly the delimiter-bounded matches of the schema",
 "In every event, a maximal run of text between delimiters (start/end of input also bound it) is reported as a variable, together with its one leading delimiter if it has one, exactly when the whole run matches a variable pattern of the schema; everything else is static text. The token carries the names of all rules it matches, in the order the rules appear in the schema, and asking an event for the variables of a type returns exactly the tokens whose first name is that type, in text order.",
 ["inputs","configurations"],"all schemas (overlapping, nullable, repeated-name patterns; any delimiter set) x all inputs",
 NOTEST+"Needs agreement with the language of arbitrary patterns at arbitrary delimiter placements.",
 [S+"Lexer.tpp",S+"LogParser.cpp",S+"LogEvent.hpp",F+"RegexDFA.tpp",F+"RegexAST.hpp","docs/schema.md"],
 [("longest match at delimiter","Lexer::scan"),("leading delimiter group prepended","LogParser::add_rules"),("type ids of a DFA state","RegexDFA::new_state"),("per-type occurrences","LogEventView::add_token")],
 ["LogEventView::get_variables","Token::m_type_ids_ptr","LogEventView::get_log_output_buffer"])
p("C04","Log type keeps static text and names each variable",
 "For every parsed event, the log type equals the event's text without its timestamp, where each variable is replaced by its leading delimiter (only if it really has one) followed by its type name in angle brackets, each newline token by the newline type's name in angle brackets, and all static text is kept byte for byte. Two events that differ only in variable values of the same types therefore have equal log types.",
 ["inputs","configurations"],"all schemas x all inputs, in particular variables at the very start of the input or of a line, adjacent delimiters, multi-line events",
 NOTEST+"The log type must be right for every placement of variables, including those without a leading delimiter.",
 [S+"LogEvent.cpp",S+"Token.cpp",S+"LogParser.cpp"],
 [("logtype assembly","LogEventView::get_logtype"),("leading delimiter","Token::get_delimiter")],
 ["LogEventView::get_logtype"])
p("C05","Reader chunking and buffering never change the result",
 "The sequence of events produced from a reader depends only on the bytes it delivers, not on how many bytes each read call returns, nor on where newlines, tokens, timestamps or events fall relative to the internal buffer's halves, wrap-around and growth. Parsing always terminates, reports completion exactly at the end of the input, uses memory proportional to the largest event, and forwards a reader failure to the caller.",
 ["inputs","schedules","fault_sequences"],"all inputs x all sequences of read sizes (short reads included) x internal buffer sizes (shrunk by a build-time hook, plus the real 48000 bytes)",
 NOTEST+"Defects hide at exact alignments of tokens with 24000-byte boundaries, which samples do not hit.",
 [S+"ReaderParser.cpp",S+"ParserInputBuffer.cpp",S+"Buffer.hpp",S+"Lexer.tpp",S+"LogParser.cpp",S+"LogParserOutputBuffer.cpp"],
 [("half-at-a-time refill","ParserInputBuffer::read / read_is_safe"),("growth and position remap","ParserInputBuffer::increase_capacity, Lexer::flip_states"),("resume after out-of-data","Lexer::scan m_asked_for_more_data")],
 ["ReaderParser::parse_next_event","ReaderParser::done"],"LOG_SURGEON_VERIF_BUFF_SIZE shrinks the static buffer so that every alignment is reached")
p("C06","Buffer parsing in pieces equals parsing at once",
 "Feeding a log through a caller-owned buffer with the documented protocol (keep the bytes from the returned offset on, append more data, call again) yields the same events as presenting the whole input at once, for every way of splitting the input. The returned offset is always the start of the first event not yet returned, in particular when no complete event is available, and the parser never reads or writes outside the given bytes.",
 ["inputs","histories","schedules"],"all inputs x all refill schedules (buffer sizes, amounts appended, when input is declared finished, tail moved to front or kept in place)",
 NOTEST+"The property ranges over all cut points of the input into successive buffers.",
 [S+"BufferParser.cpp",S+"BufferParser.hpp",S+"LogParser.cpp",S+"ParserInputBuffer.cpp","examples/buffer-parser.cpp"],
 [("offset on out-of-data","BufferParser::parse_next_event"),("external storage","ParserInputBuffer::set_storage")],
 ["BufferParser::parse_next_event","BufferParser::done"])
p("C07","A reset parser behaves like a new one",
 "After any history of parsing (complete, abandoned midway, ended by a reader error, or grown to large buffers), resetting a parser, or giving a reader-driven parser a new reader, makes every later result equal to that of a freshly constructed parser on the same input. Parsers built from the same schema, alive at the same time and used alternately, never influence each other.",
 ["histories"],"all interleavings of parse / reset / set-reader / abandon over one or more parsers and inputs",
 NOTEST+"State leaks only show after particular histories.",
 [S+"LogParser.cpp",S+"ReaderParser.cpp",S+"BufferParser.cpp",S+"Lexer.tpp",S+"ParserInputBuffer.cpp"],
 [("reset chain","LogParser::reset, Lexer::reset, ParserInputBuffer::reset, LogEventView::reset")],
 ["ReaderParser::reset_and_set_reader","BufferParser::reset"])
p("C08","A copied event equals its source and outlives it",
 "A deep copy of any non-empty event has the same text, log type, timestamp, multi-line flag and per-type variables (text and type names) as the event it was made from. It stays so after the parser continues, is reset, the source buffer is overwritten or freed, and the copy itself is copied again or moved within containers.",
 ["inputs","histories"],"all schemas x all inputs x all later parser activity and copy/move sequences",
 NOTEST+"No test creates an event; independence quantifies over everything done after the copy.",
 [S+"LogEvent.cpp",S+"LogEvent.hpp",S+"Token.cpp"],
 [("token-by-token copy into own buffer","LogEvent::LogEvent(LogEventView const&)")],
 ["LogEventView::deep_copy","LogEvent"])
p("C09","Schema patterns match exactly their regular language",
 "For every pattern written in the documented syntax (literals, escapes, concatenation, parenthesised alternation, bracket groups with ranges and negation, '.', '\\d', '\\s', '*', '+', '{N}', '{N,M}' with N<=M, capture groups, nested arbitrarily), the compiled automaton accepts a byte string exactly when the string belongs to the documented regular language of the pattern. With several rules it reports exactly the set of rules whose language contains the string.",
 ["programs","inputs"],"all patterns of the documented grammar, alone and several together x all byte strings",
 "One automaton dump of one schema is checked by the tests; the language of arbitrary nested patterns is not.",
 [F+"RegexAST.hpp",F+"RegexNFA.hpp",F+"RegexDFA.tpp",S+"Lexer.tpp",S+"SchemaParser.cpp","docs/schema.md"],
 [("Thompson-style construction","RegexAST*::add_to_nfa"),("subset construction","Lexer::nfa_to_dfa"),("bracket merge/complement","RegexASTGroup"),("repetition translation","SchemaParser regex_match_*_rule")],
 ["Lexer::get_dfa","LogParser"])
p("C10","Schema text means its rules, in order, at any size",
 "Parsing a schema yields exactly the variable rules written in it, with their names, patterns and line numbers, in file order, with the last delimiters line in force and comments and blank lines (LF or CRLF) ignored, and symbol ids assigned consistently with names. Reading the same schema from a file, from a string, or adding its rules one by one with priorities produces parsers that behave identically, for schemas of any length and any number of schemas parsed by the process before.",
 ["programs","inputs","histories"],"all schema texts (line counts, comment lengths, line lengths, line-ending mixes, order) x ways of supplying them x number of earlier parses",
 "Tests parse four one-line schemas; size limits, ordering, line endings and repeated parses are not reached.",
 [S+"SchemaParser.cpp",S+"LALR1Parser.tpp",S+"LALR1Parser.hpp",S+"Schema.cpp",S+"Parser.tpp",S+"LogParser.cpp","docs/schema.md"],
 [("LALR(1) schema grammar","SchemaParser::add_productions"),("children storage","NonTerminal::m_all_children"),("priority insertion","SchemaAST::add_schema_var")],
 ["SchemaParser::try_schema_string","SchemaParser::try_schema_file","Schema::add_variable"])
p("C11","Bad schemas are rejected with an error, never accepted or fatal",
 "Every schema text (repetition counts of moderate size) is either accepted or rejected with an exception that describes the problem; no text crashes, hangs, corrupts memory or makes the process abort, and a rejection has no effect on schemas parsed or parsers built afterwards. In particular a schema without a delimiters line, a variable pattern that can contain a delimiter, unbalanced or unescaped special characters and a missing schema file are always rejected, and a syntax error is reported with the line on which it occurs.",
 ["inputs","programs"],"all byte strings as schema, concentrating on mutations of valid schemas",
 "Tests only use valid schemas.",
 [S+"LALR1Parser.tpp",S+"SchemaParser.cpp",S+"LogParser.cpp",F+"RegexAST.hpp",S+"Schema.cpp"],
 [("error reporting","LALR1Parser::report_error"),("delimiter containment check","LogParser::add_rules")],
 ["SchemaParser::try_schema_string","LogParser::LogParser","Schema::add_variable"])
p("C12","Results do not depend on memory layout or environment",
 "Building a parser twice from the same schema and parsing the same input gives identical results, in particular the same order of type names for ambiguous tokens (the order of the rules in the schema), whatever addresses the allocator hands out and whatever was allocated, freed or parsed before.",
 ["configurations","histories"],"all schemas with overlapping rules x all allocation layouts (allocator perturbed by the check) and prior activity",
 "A test process sees one allocator layout; containers ordered by address behave differently under another.",
 [F+"RegexDFA.tpp",S+"Lexer.tpp",F+"RegexNFA.hpp"],
 [("order of matching ids in a state","RegexDFA::new_state")],
 ["Token::m_type_ids_ptr","LogEventView::get_logtype"])
p("C13","Automaton intersection reports exactly the reachable types",
 "Intersecting a schema's automaton with another automaton returns exactly the set of rule ids for which some string is accepted by the first automaton with that id and also accepted by the second one. It terminates for all pairs, cyclic ones included.",
 ["programs"],"all pairs of rule sets of the documented pattern syntax",
 "Intersection is not exercised by any test; it quantifies over an infinite set of strings.",
 [F+"RegexDFA.tpp",F+"RegexDFA.hpp"],
 [("pair reachability","RegexDFA::get_intersect, RegexDFAStatePair::get_reachable_pairs")],
 ["RegexDFA::get_intersect"])
p("C14","Capture tags mark exactly the groups a match goes through",
 "For every pattern with capture groups, each accepting run of the tagged automaton on a matching string opens and closes, properly nested, exactly the groups its derivation passes through, and every group of an alternative or optional part that was skipped is explicitly marked as not matched by a negative tag. Clones of a pattern tree are independent of the original: same structure, same automaton, usable after the original is destroyed.",
 ["programs","inputs"],"all patterns with nested capture groups under alternation, repetition and concatenation x their strings; clone/destroy sequences",
 "Tests compare the dump of a single hand-picked capture schema.",
 [F+"RegexAST.hpp",F+"RegexNFA.hpp",F+"RegexNFAState.hpp",F+"TaggedTransition.hpp",F+"Tag.hpp"],
 [("positive/negative tag propagation","RegexASTOr / RegexASTCat / RegexASTCapture constructors"),("tagged transitions","RegexNFA::new_state_with_*")],
 ["RegexNFA::serialize","RegexAST::serialize","RegexAST::clone"])
p("C15","Registers return exactly their recorded position history",
 "For every sequence of operations on capture registers, a register reads back, newest first, exactly the positions recorded on its path, negative positions included: adding or appending extends its path by a position no other register sees, a copy shares the path of its source, and setting replaces the newest position for every register whose path goes through it. Copies therefore share the history recorded before the copy and diverge once either is appended to. Out-of-range nodes or registers are refused with an out-of-range error and change nothing.",
 ["histories"],"all operation sequences over prefix trees and register handlers with arbitrary positions",
 "Tests run a handful of fixed sequences.",
 [F+"PrefixTree.hpp",F+"PrefixTree.cpp",F+"RegisterHandler.hpp"],
 [("parent-linked nodes","PrefixTree"),("register to node mapping","RegisterHandler")],
 ["PrefixTree::get_reversed_positions","RegisterHandler::get_reversed_positions"])
p("C16","File reading delivers the file's bytes and honest errors",
 "Any sequence of open, block read, read-to-delimiter and close calls on files of any content returns exactly the bytes of the file in order, keeps or strips the delimiter and appends or replaces as asked, and reports end-of-file, missing file, and block reads from an unopened reader or into a null buffer with the corresponding error code instead of data. Re-opening or closing at any point never leaks earlier content or breaks later reads.",
 ["inputs","histories"],"all file contents (embedded NULs, no final delimiter, empty) x all call sequences",
 "There is no file-reader test.",
 [S+"FileReader.cpp",S+"FileReader.hpp"],
 [("fread/getdelim wrappers","FileReader")],
 ["FileReader::read","FileReader::try_read_to_delimiter"])
p("C17","The parser generator accepts exactly its grammar's language",
 "For every reduced context-free grammar the engine accepts, the generated parser accepts a token string exactly when the grammar derives it, rejects others with an exception, and runs each production's semantic action bottom-up, left to right, exactly once per node of the derivation, whatever it parsed before (parses that ended in an exception included). Every SLR(1) grammar is accepted by the generator, and grammars that are not LALR(1), in particular ambiguous ones, are refused when the parser is generated.",
 ["programs","inputs"],"random small context-free grammars (epsilon and recursive productions included) x strings",
 "The engine is only ever exercised with the built-in schema grammar on four inputs.",
 [S+"LALR1Parser.tpp",S+"LALR1Parser.hpp",S+"Lexer.tpp"],
 [("item sets and lookahead propagation","LALR1Parser::generate*"),("shift/reduce driver","LALR1Parser::parse_symbol")],
 ["LALR1Parser::parse","LALR1Parser::generate"])
p("C18","Lexers without delimiters return the leftmost-longest tokens",
 "For every set of lexical rules that cannot match the empty string, a lexer that was given no delimiters splits any input, from left to right, into the longest matches, and reports each with the ids of exactly the rules that match it, in the order the rules were added; from the first place at which nothing matches, the remaining text is one uncaught-string token, and then comes the end token. The tokens do not depend on whether the input is one buffer, a buffer continued in pieces after out-of-bounds results, or read through the input buffer with wrap-around and growth, nor on what the lexer scanned before a reset.",
 ["programs","inputs","schedules"],"all sets of non-nullable rules x all inputs x all ways the input arrives",
 "Tests only run stand-alone lexers on single short strings of fixed schemas.",
 [S+"Lexer.tpp",S+"Lexer.hpp",S+"ParserInputBuffer.cpp",S+"Token.cpp"],
 [("longest match and back-off","Lexer::scan"),("resume after BufferOutOfBounds, growth","Lexer::move_positions, Lexer::increase_buffer_capacity")],
 ["Lexer::scan","Lexer::add_rule","Lexer::generate","Lexer::reset"])
p("C19","The interval tree finds and removes exactly the overlapping intervals",
 "For every sequence of operations, the interval tree behaves like an ordered map from closed intervals to values: inserting an interval that is already present replaces its value, listing everything returns all entries in ascending order, find returns exactly the stored entries that overlap the query, in ascending order, pop removes and returns exactly those, and reset empties the tree. This holds for empty trees, overlapping and nested intervals, whatever the order of the operations and wherever the nodes lie in memory.",
 ["histories"],"all sequences of insert, find, pop, all and reset with all intervals",
 "There is no test of the tree; rebalancing and removal depend on the whole history of operations.",
 [S+"finite_automata/UnicodeIntervalTree.tpp",S+"finite_automata/UnicodeIntervalTree.hpp"],
 [("order and balance","Node::insert, Node::balance, Node::rotate"),("bounds of subtrees","Node::update, Node::overlaps_recursive"),("removal","Node::pop, Node::pop_min")],
 ["UnicodeIntervalTree::insert","UnicodeIntervalTree::find","UnicodeIntervalTree::pop","UnicodeIntervalTree::all","UnicodeIntervalTree::reset"])
p("C20","Everything the library builds is released with it",
 "For every sequence of uses, destroying the parsers, schemas, pattern trees, automata, event copies and readers that were built releases everything they hold: repeating the same uses any number of times leaves no more heap memory and no more open files behind than doing them once. This includes uses that end in an exception (bad schemas, refused grammars, refused sentences), in a reader error, or abandoned in the middle, copies that outlive further parsing, and files that were opened again or never closed.",
 ["histories","inputs"],"all sequences of building, using, failing and destroying the library's objects",
 "Tests never look at what remains allocated, and leaks only show over the history of a long-running process.",
 [S+"Lexer.tpp",S+"LALR1Parser.tpp",S+"SchemaParser.cpp",S+"LogEvent.cpp",S+"Buffer.hpp",S+"FileReader.cpp",S+"finite_automata/RegexAST.hpp",S+"finite_automata/RegexNFA.hpp",S+"finite_automata/RegexDFA.hpp"],
 [("ownership of trees and clones","RegexAST::clone"),("files","FileReader::try_open, FileReader::close"),("dynamic buffers","Buffer::reset")],
 ["destructors of all public classes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
