#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements can be reviewed as text)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
MR="src/meta_rules/"
p("C01","A document is accepted only when it is read to its very end",
 "Parsing succeeds exactly when the last rule of the syntax matches a prefix of the text that is the whole text; when the rule stops earlier, parsing fails with an expected-end error located at the byte where the rule stopped, or with a deeper error. This holds for every text, including text with multi-byte characters, and an empty syntax is always rejected.",
 ["inputs","programs"],"every UTF-8 text (ASCII, multi-byte, empty) and every grammar, for every position at which the grammar stops reading",
 "The tests parse a handful of ASCII documents; the interesting cases are texts where byte length and character count differ and where the stop position is anywhere in between.",
 [MR+"mod.rs"],[("end of text comparison",MR+"mod.rs parse_with_indent"),("choice between expected-end and optional error",MR+"mod.rs ret_err")],
 ["Result of parse / parse_with_indent"])
p("C02","Every terminal rule reads exactly what its documentation says",
 "Token, inverted token, whitespace, until-characters, until-characters-or-whitespace, JSON string and number rules accept, at any position of any text, exactly the longest prefix their documentation describes. They emit one meta data item with the documented value (true/false by inversion, the read text, the decoded string, the number) over exactly the read range when a property name is given and nothing otherwise, and fail with the documented error at the documented position when the required text is absent.",
 ["inputs","configurations"],"every text at every position and every combination of flags (optional, inverted, negated, allow empty, allow underscore, property or not)",
 "Unit tests use one or two texts per rule and do not combine flags; boundary bytes, multi-byte characters, escapes and empty reads are inputs the tests do not enumerate.",
 [MR+f for f in ["tag.rs","whitespace.rs","until_any.rs","until_any_or_whitespace.rs","text.rs","number.rs"]],
 [("Tag::parse",MR+"tag.rs"),("Whitespace::parse",MR+"whitespace.rs"),("UntilAny::parse",MR+"until_any.rs"),("UntilAnyOrWhitespace::parse",MR+"until_any_or_whitespace.rs"),("Text::parse",MR+"text.rs"),("Number::parse",MR+"number.rs")],
 ["tokens and Result of parse"])
p("C03","Composite rules behave as ordered-choice parsing expressions",
 "Select takes the first alternative that succeeds at the position, sequence runs its parts one after the other, optional never fails, not succeeds without reading exactly when its rule fails, repeat and separated-by read greedily with their documented minimum and trailing-separator behaviour, and a node reference behaves as the referenced rule, wrapped in a named start/end pair when it has a name. For every grammar built from these rules and every text, acceptance, the number of bytes read and the emitted meta data are those of that reading.",
 ["inputs","programs"],"every grammar nested from the composite rules over terminals (bounded depth and width) and every text (bounded length)",
 "The tests exercise fixed small grammars on fixed texts; wrong state hand-over, lost backtracking or a wrong minimum only shows for particular nestings and particular texts.",
 [MR+f for f in ["select.rs","sequence.rs","optional.rs","not.rs","repeat.rs","separate_by.rs","node.rs","rule.rs","mod.rs"]],
 [("Select::parse",MR+"select.rs"),("Sequence::parse",MR+"sequence.rs"),("Optional::parse",MR+"optional.rs"),("Not::parse",MR+"not.rs"),("Repeat::parse",MR+"repeat.rs"),("SeparateBy::parse",MR+"separate_by.rs"),("Node::parse",MR+"node.rs")],
 ["tokens and Result of parse"])
p("C04","Line-separated rules read blank-line separated items",
 "A lines rule skips lines made only of whitespace, reads its rule at the start of each item, and requires a new line between consecutive items, so two items on one line are an error right after the first one. It succeeds with no items, keeps the meta data of exactly the items read, and never reads past the last item's trailing blank space.",
 ["inputs","programs"],"every text made of items, spaces, tabs, new lines and other bytes, and every item rule including multi-line and failing ones",
 "Tests cover a few fixed layouts; combinations of leading blank lines, missing final new line, several blank lines and an item failing midway are not covered.",
 [MR+"lines.rs"],[("Lines::parse without indentation",MR+"lines.rs")],["tokens and Result of parse"])
p("C05","Indented line rules follow whitespace-sensitive block structure",
 "An indented lines rule reads only lines indented exactly to its own level, counting a tab as the configured number of spaces (or as what is left of the level, when that is less), so items nest under the line they are indented below and a dedent ends the block. Reading such a block, successfully or not, leaves the indentation that applies to the rules around and after it unchanged.",
 ["inputs","configurations","histories"],"every text over spaces, tabs, new lines and item bytes, every starting indentation, alignment option and tab width, and every way of placing indented blocks after one another",
 "The indentation level is hidden mutable state threaded through the parse; a wrong restore only shows in a rule that runs after a particular block, which the tests' single-block documents never do.",
 [MR+"lines.rs",MR+"indent_settings.rs"],[("Lines::parse with indentation",MR+"lines.rs"),("IndentSettings",MR+"indent_settings.rs")],["tokens and Result of parse_with_indent"],
 state=[("indent_settings.indent","current indentation level, saved and restored around rules",MR+"lines.rs")])
p("C06","Backtracking leaves no trace and earlier meta data is kept",
 "Meta data that was in the output before parsing started stays there, unchanged and in front, whether parsing succeeds or fails, and the items appended on success depend only on the grammar and the text. No item from an alternative that was tried and abandoned remains among them, and parsing the same text again gives the same result.",
 ["inputs","programs","histories"],"every grammar with alternatives that emit data before failing, every text, and every prior content of the output",
 "The output vector is truncated lazily by position; a stale item appears only when an abandoned alternative emitted more than the accepted one, a combination of grammar and text tests sample rarely.",
 ["src/tokenizer.rs",MR+"mod.rs"],[("lazy truncation","src/tokenizer.rs read_data"),("final truncation",MR+"mod.rs parse_with_indent")],["tokens of parse"],
 state=[("TokenizerState","number of committed items","src/tokenizer.rs")])
p("C07","Meta data is well nested and its ranges match the text",
 "After a successful parse every start item is closed by an end item of the same name in stack order, ranges lie inside the text on character boundaries, and the ranges of consecutive items and of children lie in reading order within their enclosing node. Every string item holds exactly the text (or decoded string literal) found at its range, and a node's end range spans from its start to the end of what it read.",
 ["inputs","programs"],"every grammar with named nodes, properties and backtracking, and every text",
 "A one-byte slip in a range or an unclosed node depends on the combination of rules around it; tests assert ranges in only a few terminal cases.",
 [MR+"node.rs","src/tokenizer.rs",MR+"lines.rs"],[("StartNode/EndNode emission",MR+"node.rs Node::parse"),("range computation",MR+"sequence.rs, separate_by.rs, repeat.rs, lines.rs")],["tokens of parse"])
p("C08","The reported error is the deepest failure and lies inside the text",
 "When parsing fails, the reported error is one that an attempted rule really produced (or the expected-end error), and no failure met while reading reached further into the text than it does, except failures inside a not-rule. Its range lies within the text and starts on a character boundary, and it carries the identity of the rule that produced it.",
 ["inputs","programs"],"every grammar and every rejected text",
 "Which failure is deepest depends on optional parts that failed quietly earlier on; tests check single fixed errors.",
 [MR+"mod.rs",MR+"select.rs",MR+"fast_select.rs",MR+"separate_by.rs",MR+"repeat.rs",MR+"optional.rs"],
 [("err_update",MR+"mod.rs"),("ret_err",MR+"mod.rs"),("update",MR+"mod.rs")],["Err value of parse"])
p("C09","Optimizing a syntax never changes what it accepts or emits",
 "For every syntax and every text, parsing with the optimized syntax succeeds exactly when parsing with the original one does, emits the same meta data, and on failure reports an error that ends at the same depth in the text. Optimizing keeps the number, order and names of rules.",
 ["inputs","programs"],"every syntax with selects of any size, nesting, overlap of first bytes and reference structure, and every text including the empty one",
 "The optimization depends on the first bytes of alternatives across references; the tests check only that tables are built for a few examples, not that parsing is unchanged.",
 ["src/optimize.rs",MR+"fast_select.rs","src/lib.rs"],[("optimize_rule","src/optimize.rs"),("unique_table_from_select","src/optimize.rs"),("FastSelect::parse",MR+"fast_select.rs"),("Syntax::optimize","src/lib.rs")],
 ["tokens and Result of parse before and after Syntax::optimize"])
p("C10","A first byte claimed unique for a rule is the only one it can start with",
 "When the optimizer's analysis says a rule can only start with a given byte, then the rule fails on every text that is empty or starts with another byte. A dispatch table maps each byte to at most one of the leading alternatives, and only alternatives with distinct claimed bytes are put in it.",
 ["inputs","programs"],"every rule tree (including references, optional parts, negation and empty sequences) and every text",
 "Wrong claims only matter for rules such as empty reads, empty tokens or leading optional parts combined with select, which no test parses.",
 ["src/optimize.rs"],[("unique_byte","src/optimize.rs"),("unique_table_from_select","src/optimize.rs")],["optimize::unique_byte, optimize::unique_table_from_select compared with Rule::parse"])
p("C11","Every meta language construct builds the rule its documentation describes",
 "Reading a syntax written in the meta language gives, for every documented construct with every choice of its flags, characters, names and nesting, exactly the documented rule with the documented options. White space and line layout between constructs, and whether a text is written in place or through a named string, do not change the result.",
 ["programs","configurations"],"every meta language program (bounded nesting) over all constructs and flags, and every spelling of names, characters and layout",
 "The tests read whole example files and check only that they parse; that each flag reaches the right field in each combination is not checked.",
 ["src/bootstrap/rules.rs","src/bootstrap/convert.rs","src/lib.rs"],[("built-in grammar","src/bootstrap/rules.rs rules"),("conversion","src/bootstrap/convert.rs convert and read_* functions"),("pipeline","src/lib.rs syntax")],["Syntax returned by syntax(), or its behaviour on texts"])
p("C12","Converting malformed meta data fails cleanly",
 "Converting an arbitrary list of meta data into a syntax always returns, with a syntax or with an error, and never panics, hangs or exhausts memory, whatever the items, names and values are and however deep the nesting the stack can hold.",
 ["inputs"],"every list of meta data items (any kind, name, value, truncated or unbalanced)",
 "The tests convert only the output of successful parses; truncated, unbalanced and mistyped lists are never tried.",
 ["src/bootstrap/convert.rs"],[("Convert cursor","src/bootstrap/convert.rs Convert"),("read_* loops","src/bootstrap/convert.rs")],["bootstrap::convert"])
p("C13","Debug ids identify the numbered node that a rule was written in",
 "Each rule created from a syntax document gets a debug id equal to its node's number times one thousand plus a counter, rules of one node have distinct ids as long as there are fewer than a thousand of them, and an error message's id is the id of the rule that failed. A node number too large to be multiplied is reported as an error, not a crash or a wrong id.",
 ["programs","inputs"],"every syntax document: every node number, number of rules and nesting",
 "Tests do not look at debug ids; collisions or a lost increment show only for particular constructs.",
 ["src/bootstrap/convert.rs"],[("id * 1000","src/bootstrap/convert.rs read_node"),("counter increments","src/bootstrap/convert.rs read_rule and the functions below it")],["debug_id fields of syntax(), ids in ParseError"])
p("C14","A name refers to the first rule or string defined with it, wherever used",
 "A node name resolves to the first rule with that name wherever it is used, before or after its definition, and a string name to the first string so named. A name no rule defines makes parsing fail with an invalid-rule error when, and only when, that reference is reached.",
 ["programs","inputs"],"every set of rule names with duplicates, prefixes of each other, forward and backward references at any depth of nesting, and undefined names",
 "Tests use a self reference and backward references only; duplicates and references nested in every kind of rule are not covered.",
 [MR+"rule.rs",MR+"mod.rs",MR+"node.rs","src/bootstrap/convert.rs"],[("update_refs",MR+"rule.rs Rule::update_refs"),("find_string","src/bootstrap/convert.rs"),("index check",MR+"node.rs Node::parse")],["Result of parse after update_refs / syntax()"])
p("C15","Reading any text as a syntax returns a syntax or a located error",
 "Reading an arbitrary text as a meta language document, and formatting the resulting error, always returns: it never panics, overflows or hangs, for any nesting the stack can hold. Every accepted document gives a syntax with one named rule per node definition.",
 ["inputs"],"every UTF-8 text: valid syntax documents with one or more bytes changed, inserted or removed anywhere, and arbitrary short texts",
 "Tests read a fixed set of valid files and a few error files.",
 ["src/lib.rs","src/bootstrap/convert.rs","src/bootstrap/rules.rs","src/optimize.rs"],[("syntax","src/lib.rs"),("convert","src/bootstrap/convert.rs"),("optimize_rule","src/optimize.rs")],["syntax, syntax_errstr"])
p("C16","Parsing any text with any non-left-recursive grammar terminates without panic",
 "For every grammar without left recursion and every UTF-8 text, parsing returns a success or an error after finitely many steps, with no panic and no arithmetic overflow, even when repeated or separated rules can read nothing, as long as the stack can hold the nesting. The formatted error for that text is also produced without panic.",
 ["inputs","programs"],"every grammar (bounded size), including repetition of rules that can match the empty text, and every text including multi-byte characters",
 "Tests avoid grammars that read nothing in a loop and text beyond ASCII.",
 [MR+f for f in ["repeat.rs","separate_by.rs","lines.rs","fast_select.rs","mod.rs"]],[("Repeat loop",MR+"repeat.rs"),("SeparateBy loop",MR+"separate_by.rs"),("slicing of text","read_token use in all terminals")],["parse, parse_errstr"])
p("C17","Strings written as JSON are valid and read back unchanged",
 "The JSON text written for a string is a valid JSON string literal for every string, with quotes, backslashes and all control characters escaped, and reading it with the library's own string rule gives back the same string.",
 ["inputs"],"every string: every control character, quote, backslash, multi-byte and astral character, in every combination (bounded length)",
 "One test file prints one document; control characters and escapes are not enumerated.",
 ["src/json.rs"],[("write_string","src/json.rs")],["bytes written by json::write_string, and the Text rule's value"])
p("C18","Meta data written as JSON keeps its structure and values",
 "Writing any well nested meta data with finite numbers gives text that is a valid JSON object body whose keys, nesting, order and values are exactly those of the meta data, with commas between siblings only. Writing meta data that is not well nested does not panic.",
 ["inputs"],"every list of meta data items up to a bounded length, well nested or not, with every name and value",
 "Tests do not check the written text.",
 ["src/json.rs"],[("write","src/json.rs write"),("indent","src/json.rs")],["bytes written by json::write"])
p("C19","Error reports point at the line and column where the error is",
 "The report written for an error names the line and column of the error's position, counted from one in lines and characters, shows that line, and puts the caret under the character at that position, for every text and position. Long lines are cut to a window that still contains the position, the message text is the error's own, and writing never fails or panics.",
 ["inputs"],"every text (line lengths beyond the window, blank lines, multi-byte characters, missing final new line) and every error range in it",
 "Tests print reports and check nothing about line, column or caret.",
 ["src/parse_error_handler.rs","src/parse_error.rs"],[("write_msg","src/parse_error_handler.rs"),("write","src/parse_error_handler.rs"),("Display","src/parse_error.rs")],["bytes written by ParseErrorHandler, syntax_errstr, parse_errstr"])
p("C20","Sequential meta data search advances only past what it matched",
 "Each sequential read of a search succeeds exactly when the next item has the requested kind and name, returns that item's value, and moves past exactly that item; otherwise the search stays where it was. Reading on past the end fails and never panics.",
 ["inputs","histories"],"every list of items and every sequence of reads with every name",
 "The search crate has no tests.",
 ["src/search/src/lib.rs"],[("Search::bool/f64/string/node/end_node","src/search/src/lib.rs")],["return values and range of Search"])
p("C21","Scanning search visits the first matching item and the data after it",
 "A scan for a kind and name calls back exactly once with the value of the first item of that kind and name and with the data that follows it, returns what the callback returns, and reports no match without calling back when there is none. Items of other kinds with the same name never match.",
 ["inputs"],"every list of items and every searched name and kind",
 "The search crate has no tests.",
 ["src/search/src/lib.rs"],[("Search::for_string/for_f64/for_bool/for_node/for_end_node","src/search/src/lib.rs")],["callback arguments and return value"])
p("C22","The conversion cursor reads items exactly and accounts for every one",
 "Reading a named item with the conversion cursor succeeds exactly when the next item has that kind and name, returns its value and the range of one item, and updating with a range advances the cursor by exactly that many items. Ignoring skips one item or one whole balanced node, and the difference of two cursors is the exact stretch of items between them.",
 ["inputs","histories"],"every list of items and every sequence of cursor operations",
 "The cursor is public API for converting meta data but is only exercised through well formed syntax documents.",
 ["src/bootstrap/convert.rs"],[("Convert","src/bootstrap/convert.rs")],["return values of Convert methods"])
p("C23","The meta language described in itself is the built-in meta language",
 "Reading any text with the rules obtained from the shipped description of the meta language in the meta language accepts exactly the texts that the built-in rules accept, and gives the same meta data. The shipped description read by itself gives those same rules again.",
 ["inputs","programs"],"every text offered as a syntax document (valid, mutated and arbitrary)",
 "The bootstrap tests read a few documents with both; agreement on every construct and every rejected text is not checked.",
 ["src/bootstrap/rules.rs","assets/self-syntax.txt"],[("rules","src/bootstrap/rules.rs"),("self syntax","assets/self-syntax.txt")],["tokens and Result of parse with either syntax"])
p("C24","Syntax and rule equality is structural",
 "Every syntax or rule equals its own clone, rules built from equal parts are equal, and rules that differ in any option, text, name or sub rule are not equal. This includes rules produced by the optimizer.",
 ["programs"],"every rule tree (bounded depth) and every single-field difference",
 "Tests compare only meta data.",
 [MR+"rule.rs",MR+"fast_select.rs","src/lib.rs"],[("PartialEq of rules",MR+"*.rs"),("PartialEq of FastSelect",MR+"fast_select.rs")],["== on Rule and Syntax"])
p("C25","A shared syntax gives every thread the result it gives one thread",
 "Parsing from several threads at once with one shared syntax, including the first use of the built-in meta language, gives each thread exactly the result it would get alone.",
 ["schedules"],"every interleaving of threads that share a syntax or first initialise the built-in rules",
 "Tests only assert the thread-safety marker traits.",
 ["src/lib.rs"],[("lazy initialisation","src/lib.rs syntax"),("no interior mutability",MR+"*.rs")],["parse, syntax from several threads"])
p("C26","Loading a syntax and a document from files equals parsing their contents",
 "Loading data through file paths gives exactly the meta data that reading both files' contents and parsing them gives, and stops with a printed report when either is invalid.",
 ["inputs","fault_sequences"],"every pair of files and every I/O outcome",
 "Only example files are loaded.",
 ["src/lib.rs"],[("load_syntax_data","src/lib.rs")],["load_syntax_data"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
