#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook="in-module harness behind cfg(rescan_verif)", state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Compilation is total: every input yields a database or an error",
  "For every expression text, flag combination, match ID and mode, compiling one or several expressions returns either a database or a compile error: it never panics, never overflows an arithmetic operation and never touches memory it does not own.",
  ["inputs","configurations"], "all UTF-8 expression texts (ASCII and multi-byte), all flag words, all IDs, all modes, lists of expressions",
  "Public-API tests compile one pattern ('foobar'); nothing exercises groups after a prefix, non-ASCII text, conflicting flags or lists.",
  ["src/lib.rs","src/compiler.rs","src/parser.rs","src/parser/control_verbs.rs","src/nfagraph/ng.rs","src/smallwrite/smallwrite_build.rs","src/util/report_manager.rs","src/util/compile_error.rs"],
  [("compile_multi_int","src/lib.rs"),("add_expression","src/compiler.rs"),("Context::main / push_sequence","src/parser.rs"),("Ng::add_literal","src/nfagraph/ng.rs")],
  ["rescan::compile","rescan::compile_multi"])
p("C02", "Exactly the supported expression language is accepted",
  "An expression compiles if and only if it is no longer than the length limit, its flags do not combine QUIET with SOM_LEFTMOST, any leading (*VERB) is a supported one, all remaining characters are ASCII, and its parentheses balance (every ')' closes an earlier '(' and every '(' is closed); '|' may appear anywhere. Every other expression is rejected with an error.",
  ["inputs","configurations"], "all expression texts and all flag words, in every mode",
  "The tests parse four tiny patterns; acceptance is a statement about all strings.",
  ["src/parser.rs","src/compiler.rs","src/parser/control_verbs.rs"],
  [("Context::main / pop_sequence / parse","src/parser.rs"),("ParsedExpression::new","src/compiler.rs"),("read_control_verbs","src/parser/control_verbs.rs")],
  ["rescan::compile"])
p("C03", "Parse errors say where in the expression the problem is",
  "When an expression is rejected for an unclosed group, the message ends with the byte index of the innermost unclosed '('; for an unmatched ')' and for an unsupported character it carries the byte index of that character; for a bad control verb it names the verb and index 2. The index always refers to the whole expression text, including any leading control verb.",
  ["inputs"], "all rejected expression texts",
  "No test looks at an error index; the offset arithmetic depends on the whole history of the parse.",
  ["src/parser.rs","src/parser/control_verbs.rs"],
  [("Context::push_sequence offset","src/parser.rs"),("Context::main / parse error construction","src/parser.rs"),("read_control_verbs","src/parser/control_verbs.rs")],
  ["CompileError Display text"])
p("C04", "Compiling a list fails at, and names, the first failing expression",
  "Compiling a list of expressions succeeds exactly when the list is non-empty, the flag and ID lists have one entry per expression, and every expression compiles on its own (match IDs not clashing); otherwise it fails, and if an expression is at fault the error text ends with ' in expression i' where i is the position of the first failing one. Compiling a single expression is the same as compiling a one-element list with match ID 0.",
  ["inputs","histories"], "all lists of expressions, flags and IDs (any lengths, also mismatched)",
  "Only the empty list is tested; nothing compiles two expressions.",
  ["src/lib.rs","src/util/compile_error.rs"],
  [("compile_multi_int","src/lib.rs"),("CompileError::set_expression_index / Display","src/util/compile_error.rs")],
  ["rescan::compile","rescan::compile_multi"])
p("C05", "Resource limits are enforced exactly at their boundary",
  "A compile is rejected when the number of expressions exceeds the pattern-count limit, when an expression is longer (in bytes) than the pattern-length limit, or when a further distinct report would exceed the report limit, and is not rejected for those reasons at or below the limit; the default limits are 8,000,000 expressions, 16,000 bytes and 32,000,000 reports.",
  ["inputs","configurations"], "all limit values and all input sizes around them",
  "No test reaches any limit.",
  ["src/lib.rs","src/compiler.rs","src/grey.rs","src/util/report_manager.rs"],
  [("compile_multi_int count check","src/lib.rs"),("add_expression length check","src/compiler.rs"),("ReportManager::get_internal_id","src/util/report_manager.rs"),("Grey::default","src/grey.rs")],
  ["rescan::compile","rescan::compile_multi"])
p("C06", "The parse tree mirrors the expression",
  "For every accepted expression the parse tree contains each literal character exactly once and in order, one sub-sequence per parenthesised group numbered 1, 2, 3... in order of its '(' (the root is 0), and, in any sequence with k '|' at its own level, a single alternation of k+1 uncaptured branches holding the characters and groups between them in order (branches may be empty).",
  ["inputs"], "all accepted expression texts",
  "Three fixed patterns are dumped; nesting, empty branches and numbering combine without bound.",
  ["src/parser.rs","src/parser/component_sequence.rs","src/parser/component_alternation.rs","src/parser/component.rs"],
  [("Context::push_sequence / pop_sequence","src/parser.rs"),("ComponentSequence::add_alternation / finalize","src/parser/component_sequence.rs")],
  ["parser::parse"])
p("C07", "Control verbs are recognised only at the start and do what they say",
  "A leading (*UTF8) or (*UTF) turns on UTF-8 mode and (*UCP) turns on UCP mode, nothing else in the mode changes, and parsing continues right after the ')'. The verbs NO_AUTO_POSSESS, NO_START_OPT, UTF16, UTF32, CR, LF, CRLF, ANYCRLF, ANY, BSR_ANYCRLF, BSR_UNICODE, LIMIT_MATCH=... and LIMIT_RECURSION=... are rejected as unsupported and any other non-empty verb as unknown; text that does not start with a complete (*...) verb is left untouched and changes no mode.",
  ["inputs"], "all expression texts and all starting modes",
  "Five verb strings are tested; case, truncation, near-misses and empty verbs are not.",
  ["src/parser/control_verbs.rs"],
  [("read_control_verbs / control_verb","src/parser/control_verbs.rs")],
  ["parser::control_verbs::read_control_verbs"])
p("C08", "Each flag controls exactly its own setting",
  "CASELESS, DOTALL, MULTILINE, UCP and UTF8 each switch on exactly their own parse setting; SINGLEMATCH, PREFILTER and QUIET each switch on exactly their own expression property; a (*UTF) verb also marks the expression as UTF-8; the expression keeps the caller's index and match ID; no other flag has any influence on these.",
  ["inputs","configurations"], "all 2^11 flag words, all indexes and IDs, all leading verbs",
  "No test passes any flag through.",
  ["src/parser/parser_util.rs","src/compiler.rs","src/lib.rs"],
  [("ParseMode::new","src/parser/parser_util.rs"),("ParsedExpression::new","src/compiler.rs")],
  ["ParsedExpression"])
p("C09", "A literal character matches itself, and its case twin only if caseless",
  "The class built for a literal character contains exactly that character, plus, in caseless mode and for an ASCII letter only, the same letter in the other case; characters above U+00FF are refused with an error.",
  ["inputs"], "all Unicode scalar values, both case modes, every position in an expression",
  "One character ('a', case-sensitive) is tested through the parser.",
  ["src/parser/component_class.rs","src/parser/ascii_component_class.rs","src/parser.rs"],
  [("get_literal_component_class","src/parser/component_class.rs"),("AsciiComponentClass::add","src/parser/ascii_component_class.rs")],
  ["parser::get_literal_component_class"])
p("C10", "Only pure literals take the literal shortcut, with exactly their text",
  "An expression made only of literal characters and groups (at least one character, no '|') is handed to the literal matcher with exactly its characters in order, letters marked caseless if and only if CASELESS is set (and then stored in upper case); an expression with an alternation or without any character never is. The shortcut can be turned off by configuration, and then nothing is registered.",
  ["inputs","configurations"], "all accepted expression texts, flags and shortcut settings",
  "No test observes which path an expression takes or what literal is registered.",
  ["src/parser/shortcut_literal.rs","src/nfagraph/ng.rs"],
  [("shortcut_literal / ConstructLiteralVisitor","src/parser/shortcut_literal.rs"),("Ng::add_literal","src/nfagraph/ng.rs")],
  ["literal trie, minimum width and report tables after compiling"])
p("C11", "Registering literals keeps the build-wide summary right",
  "After any sequence of literals has been registered, the minimum match width is the length of the shortest one registered (infinite if none), start-of-match tracking is on exactly if some registered expression asked for it, and every registered literal's match ID is known; a literal that is declined, or refused for its SINGLEMATCH setting, leaves all of that unchanged.",
  ["inputs","histories"], "all sequences of literals with arbitrary text, IDs and SINGLEMATCH settings",
  "No test adds two literals or looks at the result.",
  ["src/nfagraph/ng.rs","src/util/report_manager.rs","src/util/depth.rs"],
  [("Ng::add_literal","src/nfagraph/ng.rs")],
  ["Ng state after add_literal"])
p("C12", "The small-write trie stores exactly the literals added",
  "After any sequence of literals within the limits, following a literal's characters from the root of its trie (the caseless trie if any character is caseless, the case-sensitive one otherwise) ends at a node carrying exactly the reports added for that literal; nodes that end no literal carry none, no node has two children for one character, and the trie has one node per distinct prefix.",
  ["inputs","histories"], "all sequences of literals and reports",
  "The trie has no tests at all; prefix sharing depends on the whole insertion history.",
  ["src/smallwrite/smallwrite_build.rs"],
  [("SmallWriteBuild::add_literal / add_to_trie","src/smallwrite/smallwrite_build.rs")],
  ["lit_trie and lit_trie_nocase"])
p("C13", "The small-write builder backs off exactly when it must",
  "The small-write builder is disabled from the start if configuration forbids it or there are more patterns than its limit, and becomes disabled for good once more literals than the limit are added, a trie grows past 8,000 nodes, or an expression needs start-of-match, is vacuous or has a minimum length report; once disabled it stores nothing more. A literal longer than the largest buffer is skipped and does not count.",
  ["inputs","histories","configurations"], "all limit settings, literal lengths and insertion histories",
  "No test touches the small-write limits.",
  ["src/smallwrite/smallwrite_build.rs","src/nfagraph/ng_holder.rs"],
  [("SmallWriteBuild::new / add_literal / add_expression","src/smallwrite/smallwrite_build.rs")],
  ["SmallWriteBuild state"])
p("C14", "Expressions sharing a match ID must agree on SINGLEMATCH",
  "Registering an expression fails if and only if an earlier registered expression with the same match ID had the opposite SINGLEMATCH setting; the error names the match ID, the index of the offending and of the first expression, and says correctly which of the two specified SINGLEMATCH. The set as a whole is exhaustible only while every registered expression is SINGLEMATCH.",
  ["inputs","histories"], "all sequences of (match ID, SINGLEMATCH, index) registrations",
  "No test registers two expressions with one ID.",
  ["src/util/report_manager.rs","src/util/compile_error.rs","src/lib.rs"],
  [("ReportManager::register_ext_report","src/util/report_manager.rs")],
  ["rescan::compile_multi","ReportManager::register_ext_report"])
p("C15", "Internal report IDs are a stable one-to-one numbering",
  "Asking for the ID of equal reports always gives the same number, of different reports different numbers; numbers are handed out densely from 0 in order of first request, looking a number up returns the report it was given for, and a request refused because of the limit changes nothing.",
  ["inputs","histories"], "all sequences of requests with arbitrary reports and limits",
  "The report manager has no tests.",
  ["src/util/report_manager.rs","src/util/report.rs"],
  [("ReportManager::get_internal_id / get_report","src/util/report_manager.rs")],
  ["ReportManager API"])
p("C16", "Exhaustion keys are stable, unique and dense",
  "Each expression index gets one exhaustion key: the same key every time it is asked for, a different key from every other index, and keys are 0, 1, 2... in order of first request.",
  ["inputs","histories"], "all sequences of requests with arbitrary 32-bit indexes",
  "No test asks for an exhaustion key.",
  ["src/util/report_manager.rs"],
  [("ReportManager::get_exhaustible_key","src/util/report_manager.rs")],
  ["ReportManager::get_exhaustible_key"])
p("C17", "The expression graph has one position per literal, with its class",
  "For every accepted expression the graph built from it consists of the four special vertices plus one vertex per literal character, in order of appearance, each reachable on exactly that character's class; the special vertices keep their own reach, and the expression's properties are carried over unchanged.",
  ["inputs","configurations"], "all accepted expressions and flag words",
  "No test builds a graph.",
  ["src/compiler.rs","src/nfagraph/ng_builder.rs","src/parser/ascii_component_class.rs","src/parser/component_sequence.rs","src/parser/component_alternation.rs","src/parser/build_state.rs"],
  [("build_graph","src/compiler.rs"),("note_positions","src/parser/component*.rs"),("NfaBuilder","src/nfagraph/ng_builder.rs")],
  ["compiler::build_graph"])
p("C18", "Position wiring obeys the float and multiline rules",
  "When positions are connected, the floating start is never wired to a position marked no-float (and a no-float source there is wired to nothing), the anchored start is never wired to one marked both must-float and no-float nor to an empty position that is not marked no-float, a multiline-start source is never wired to end-of-data, an edge to plain accept is replaced by a fresh vertex, and every other requested connection is recorded, for every source.",
  ["inputs"], "all source/target lists with arbitrary flags over special and ordinary positions",
  "The wiring code runs only with one fixed region pair today.",
  ["src/parser/build_state.rs","src/parser/position.rs","src/parser/position_info.rs"],
  [("GlushkovBuildState::connect_regions / connect_successors","src/parser/build_state.rs"),("filter_edges","src/parser/build_state.rs")],
  ["successor map of the build state"])
p("C19", "Graph queries report exactly what the graph contains",
  "A new graph has four distinct special vertices with start and floating start reachable on every byte, the other two on none, and exactly the edges start to floating start, floating start to itself and accept to end-of-data accept; the set of all reports is the union of the reports on vertices with an edge into either accept, and a graph is vacuous exactly when either start has an edge into either accept.",
  ["inputs"], "all sets of extra vertices, edges and vertex reports",
  "The graph holder has no tests.",
  ["src/nfagraph/ng_holder.rs"],
  [("NgHolder::new / all_reports / is_vacuous","src/nfagraph/ng_holder.rs")],
  ["NgHolder API"])
p("C20", "The database remembers the mode it was compiled for",
  "Block mode gives a block database, streaming mode a streaming one and vectored mode a vectored one; streaming and vectored count as streaming, only vectored as vectored; start-of-match precision is 8, 4 or 2 bytes for a large, medium or small horizon, 8 for vectored, and 0 otherwise.",
  ["inputs","configurations"], "all modes and horizons, with any compilable expression",
  "Only block mode is compiled and its effect is not looked at.",
  ["src/lib.rs","src/util/compile_context.rs","src/rose/rose_build.rs"],
  [("Mode","src/lib.rs"),("RoseBuild::build_final_engine","src/rose/rose_build.rs")],
  ["Database mode"])
p("C21", "The pure-literal engine is chosen only when nothing else is needed",
  "The pure-literal runtime is picked exactly when the build uses the floating table and uses no outfix, suffix, leftfix, anchored table, end-of-data, state, delayed literal or group check, and, when streaming, no long-literal check; otherwise the full runtime is picked.",
  ["configurations"], "all combinations of engine resources and modes",
  "No test sets any resource.",
  ["src/rose/rose_build_bytecode.rs","src/rose/rose_build_resources.rs"],
  [("is_pure_floating / pick_runtime_impl","src/rose/rose_build_bytecode.rs")],
  ["rose::pick_runtime_impl"])
p("C22", "Scanning any data with any database succeeds and changes nothing",
  "Scanning any byte string with any database that compiled, on any runtime, returns success, and leaves the scratch space and whatever it points to unchanged.",
  ["inputs","configurations"], "all databases, data and scratch contents",
  "No test calls scan.",
  ["src/runtime.rs","src/rose/block.rs","src/database.rs","src/scratch.rs"],
  [("scan","src/runtime.rs")],
  ["rescan::scan"])
p("C23", "Updating a byte set changes exactly the requested members",
  "Starting from any set of bytes, setting, resetting or flipping a byte changes membership of that byte as asked and of no other, set-all/reset-all/flip-all act on all 256 bytes, and a membership test reports exactly whether the byte is in the set.",
  ["inputs"], "all 2^256 sets, all bytes",
  "Tests start from empty or full sets with one index at a time.",
  ["src/util/bitfield.rs","src/util/charreach.rs"],
  [("BitField256 set/reset/flip/test and *_all","src/util/bitfield.rs"),("CharReach wrappers","src/util/charreach.rs")],
  ["CharReach and BitField256 API"])
p("C24", "Byte-set algebra is union, intersection, difference and complement",
  "For any two sets, |, &, ^ and ! (and their assigning forms) give exactly the union, intersection, symmetric difference and complement, equality holds exactly when the members are the same, and the ordering is a total order that agrees with equality.",
  ["inputs"], "all pairs (triples for ordering) of the 2^256 sets",
  "Tests combine a handful of fixed sets.",
  ["src/util/bitfield.rs","src/util/charreach.rs"],
  [("BitAnd/BitOr/BitXor/Not impls","src/util/bitfield.rs and src/util/charreach.rs")],
  ["CharReach and BitField256 operators"])
p("C25", "Byte-set queries find exactly the members, in order",
  "For any set, the count is the number of members; first and last are the smallest and largest member; next(b) is the smallest member greater than b; nth(n) is the member with exactly n smaller members; each is absent exactly when there is no such member; and none/any/all agree with the count.",
  ["inputs"], "all 2^256 sets, all bytes b and n",
  "Tests use one-member, full, or evenly strided sets.",
  ["src/util/bitfield.rs","src/util/charreach.rs"],
  [("count/find_first/find_last/find_next/find_nth/none/any/all","src/util/bitfield.rs")],
  ["CharReach and BitField256 queries"])
p("C26", "Setting a range adds exactly the bytes of that range",
  "For any starting set and any from <= to, setting a range adds exactly the bytes from..=to and removes nothing; with from > to it panics rather than change the set.",
  ["inputs"], "all 2^256 starting sets, all 65,536 bound pairs",
  "Tests start from the empty set and check only the first, last and count.",
  ["src/util/bitfield.rs","src/util/charreach.rs"],
  [("BitField256::set_range","src/util/bitfield.rs")],
  ["BitField256::set_range","CharReach::from_range"])
p("C27", "Sets built from bytes, ranges and strings hold exactly those bytes",
  "A set built from one byte, a range, a byte string or as 'dot' contains exactly those bytes (all 256 for dot), adding a byte string to an existing set adds exactly its bytes, and converting a set to text lists its members once each in increasing order.",
  ["inputs"], "all bytes, ranges, byte strings and starting sets",
  "Tests build a few fixed sets.",
  ["src/util/charreach.rs"],
  [("from_char/from_range/from_bytes/dot/set_bytes/Display","src/util/charreach.rs")],
  ["CharReach constructors and Display"])
p("C28", "Caseless closure adds exactly the missing case twins",
  "Making a set caseless adds, for every ASCII letter in it, the same letter in the other case, and changes nothing else; doing it twice is the same as once.",
  ["inputs"], "all 2^256 sets",
  "The closure is only run on one-letter sets, indirectly.",
  ["src/util/charreach.rs","src/util/compare.rs"],
  [("make_caseless","src/util/charreach.rs")],
  ["util::make_caseless"])
p("C29", "Byte-set predicates mean what their names say",
  "For any set: alphabetic means non-empty and only ASCII letters; caseless pair means exactly an upper-case letter and its lower-case twin; bit-5 insensitive means closed under flipping bit 5; subset and overlap are the set relations; ASCII means no byte above 0x7f; UTF-8 start means no byte below 0xc0.",
  ["inputs"], "all 2^256 sets (and pairs of sets)",
  "Tests evaluate the predicates on a few hundred small sets; is_ascii, is_utf8_start, subset and overlap are untested.",
  ["src/util/charreach.rs","src/util/unicode_def.rs"],
  [("is_alphabetic/is_caseless_char/is_bit5_insensitive/is_subset_of/overlaps/is_ascii/is_utf8_start","src/util/charreach.rs")],
  ["CharReach predicates"])
p("C30", "And/compare masks accept every member of the set",
  "For any set the generated masks satisfy (c & and) == cmp for every member c, and for a non-empty set the and-mask has a bit exactly where all members agree and the compare value has no bit outside the and-mask.",
  ["inputs"], "all 2^256 sets",
  "The function has no test.",
  ["src/util/charreach.rs"],
  [("make_and_cmp_mask","src/util/charreach.rs")],
  ["make_and_cmp_mask"])
p("C31", "Exporting a set as a bit vector loses nothing",
  "Filling a 32-byte bit vector from a set leaves bit c%8 of byte c/8 set exactly when c is in the set, whatever the buffer held before, and bytes beyond the 32nd untouched; a shorter buffer panics.",
  ["inputs"], "all 2^256 sets, all prior buffer contents",
  "The function has no test.",
  ["src/util/charreach.rs"],
  [("fill_bitvector","src/util/charreach.rs")],
  ["fill_bitvector"])
p("C32", "Byte case mapping is ASCII case mapping",
  "For every byte, to-lower and to-upper change exactly the 26 ASCII letters of the other case by 0x20 and leave every other byte alone; is-upper and is-lower hold exactly for A-Z and a-z, and a byte counts as a letter exactly if one of them holds.",
  ["inputs"], "all 256 bytes",
  "Only exercised indirectly.",
  ["src/util/compare.rs"],
  [("myisupper/myislower/mytolower/mytoupper/ourisalpha","src/util/compare.rs")],
  ["util::compare"])
p("C33", "A literal yields back what was pushed",
  "A literal's length is the number of characters pushed, iterating gives them in order with their caseless mark (caseless letters in upper case, all others as given), it has a caseless character exactly if one was pushed so, is empty exactly if nothing was, and has mixed sensitivity exactly if it holds both a caseless and a case-sensitive letter (non-letters do not count).",
  ["inputs","histories"], "all sequences of pushed (byte, caseless) pairs",
  "One test compares two empty literals.",
  ["src/util/ue2string.rs"],
  [("Ue2Literal::push/len/is_empty/any_nocase/iter","src/util/ue2string.rs"),("mixed_sensitivity","src/util/ue2string.rs")],
  ["Ue2Literal API"])
p("C34", "Literal equality and ordering agree",
  "Two literals are equal exactly when they have the same characters and the same caseless marks, which is exactly when their comparison says equal; the comparison is a total order (antisymmetric, transitive) in which the characters are compared first.",
  ["inputs"], "all pairs and triples of literals",
  "One test compares two empty literals.",
  ["src/util/ue2string.rs"],
  [("PartialEq / Ord / PartialOrd for Ue2Literal","src/util/ue2string.rs")],
  ["Ue2Literal ==, <, cmp"])
p("C35", "Depths convert exactly and compare like numbers",
  "A number converts to a depth exactly when it is at most 2^31-2 (as 32-bit or machine-size integer), two depths compare exactly as the numbers they came from, and infinity is greater than every such depth and equal only to itself.",
  ["inputs"], "all 32-bit and 64-bit integers, all pairs",
  "Depth has no tests.",
  ["src/util/depth.rs"],
  [("TryFrom<u32>, TryFrom<usize>, Ord for Depth","src/util/depth.rs")],
  ["Depth API"])
p("C36", "Alignment helpers round to the nearest multiple",
  "For every value, rounding up gives the least multiple of the alignment not below it (when representable) and rounding down the greatest multiple not above it, for 16, cache-line (64) and any power-of-two alignment up to 128, at every integer width.",
  ["inputs"], "all 8-, 16-, 32- and 64-bit values, all power-of-two alignments",
  "Only used with small indexes by one caller; no test.",
  ["src/util/ue2common.rs"],
  [("round_up_16/round_down_16/round_up_n/round_down_n/round_up_cache_line","src/util/ue2common.rs")],
  ["util::ue2common"])
p("C37", "The debug description of a character class denotes that class",
  "For every character class the description text reads back as exactly that class: a single (possibly escaped) character, a single mnemonic, '<any>', '<empty>', or a bracketed (possibly negated) list of characters, ranges and \\w, \\d, \\s mnemonics, with control and non-ASCII bytes as \\t, \\n, \\r or two-digit \\xHH escapes.",
  ["inputs"], "all 2^256 classes, text and dot styles",
  "The describer is test support and is only run on the class {a}.",
  ["src/util/dump_charclass.rs"],
  [("describe_class / describe_class_int / describe_range / describe_char","src/util/dump_charclass.rs")],
  ["describe_class output"], hook="the module is compiled only for tests; the hook also compiles it under cfg(rescan_verif)")
p("C38", "Tree walks visit every node once, in order, and stop on error",
  "Walking a parse tree calls the visitor's pre and post hooks exactly once per node, properly nested and children in order, calls the between-children hook exactly once between consecutive children of sequences and alternations, and, when a pre hook fails, stops at once and returns that error.",
  ["inputs"], "all parse trees and all failing positions",
  "Walks are only run over three tiny trees and never fail.",
  ["src/parser/component.rs","src/parser/component_sequence.rs","src/parser/component_alternation.rs","src/parser/component_class.rs","src/parser/ascii_component_class.rs"],
  [("walk_component and friends","src/parser/component*.rs")],
  ["sequence of visitor calls"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
