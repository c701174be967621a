"""Which harnesses decide which property, within which bounds.

Each entry of quick/thorough: (harness, engine options, behaviours that must be reached: numbers of `cover` calls)."""

CODES = {
 10: "accepted although not read to the end, or rejected although read to the end", 11: "expected-end error is not where the rule stopped", 12: "another error is reported that is not deeper than the place where the rule stopped",
 13: "empty syntax: not the no-rules error", 14: "empty syntax: error outside the text", 15: "empty syntax accepted", 16: "empty syntax: meta data emitted",
 30: "acceptance differs from the documented reading", 32: "a huge exponent is read as another number", 31: "emitted meta data differs from the documented reading",
 60: "meta data that was there before was changed", 61: "acceptance differs from the documented reading", 62: "appended meta data differs from that of the successful reading", 63: "second parse of the same text differs",
 64: "second parse emits other meta data", 65: "parse after a parse fails", 66: "parse on top of a parse differs", 67: "meta data that was there before was changed by a failing parse",
 70: "item range outside the text", 71: "item range not on character boundaries", 72: "start item is not empty", 73: "start item before what was read", 74: "end without start", 75: "end name differs from start name", 76: "end range does not begin at its start", 77: "end range ends before its content", 78: "items out of reading order", 79: "string item is not the text at its range", 80: "start without end",
 90: "error range outside the text", 91: "error is not at the deepest failure", 92: "error was not produced by any rule", 93: "failed where the reading succeeds",
 100: "optimizing changed number or names of rules", 101: "optimized syntax emits other meta data", 102: "optimized syntax reports another depth", 103: "optimized syntax accepts differently", 104: "twice optimized syntax accepts differently", 105: "twice optimized syntax emits other meta data",
 110: "rule with a claimed first byte accepts another start", 111: "dispatch table too large", 112: "alternative without claimed byte in the table", 113: "claimed byte twice in the table", 114: "table entry is not its alternative", 115: "table entry for an unclaimed byte",
 120: "ignored range outside the meta data", 121: "rules without node or name", 122: "optimizing a converted syntax loses rules",
 180: "not the rules that were written", 181: "document not readable", 182: "optimized syntax is not the optimized form of the rules that were written",
 123: "equality is not structural", 124: "equality is not symmetric", 125: "inequality is not the opposite of equality", 126: "a clone is not equal", 127: "equality of syntaxes is not structural", 128: "clone of a syntax is not equal", 129: "document not readable",
 130: "debug id outside its node's range", 131: "two rules share a debug id", 132: "wrong number of rules", 133: "document not readable", 134: "optimizing changed debug ids", 135: "a node number too large was accepted", 136: "a node number that fits was rejected", 137: "error outside the document", 138: "error id does not name the failed rule", 139: "parse_errstr differs from parse", 140: "report does not begin with the id",
 150: "not the rule that was written", 151: "reference does not name the first rule of that name", 152: "resolving again changes something", 153: "wrong number of rules", 154: "wrong rule name", 155: "document not readable", 156: "not the rule that was written", 157: "string reference is not the first string of that name", 158: "document not convertible",
 160: "formatted error and error disagree", 161: "formatted error without message",
 170: "names and rules differ in number", 171: "accepted syntax is not accepted by the built-in rules", 172: "not one rule per definition", 173: "error outside the document", 174: "syntax_errstr accepts what syntax rejects", 175: "formatted error without message",
 230: "own and built-in meta language accept differently", 231: "own and built-in meta language emit different meta data", 232: "the shipped description is not read by its own rules", 233: "the shipped description does not convert", 234: "the shipped description does not give the same rules again",
 260: "write_string fails", 261: "not a JSON string literal", 262: "text after the literal", 263: "decoded literal differs", 264: "library reads no string", 265: "library reads another string", 266: "library reads no string", 267: "library reads another range", 268: "library rejects the literal",
 270: "not a JSON string", 284: "members missing", 285: "write fails", 286: "text or items left over", 287: "write fails",
 300: "message text missing", 301: "report does not end its last line", 302: "message line not ended", 303: "line that is not of the text", 304: "line at or after the error in the context", 305: "context line differs from the text", 306: "context line has the wrong number", 307: "context does not end at the error", 308: "no source line", 309: "wrong line or column", 310: "caret line has the wrong position", 311: "no caret", 312: "caret left of the window", 313: "caret right of the window", 314: "window too long", 315: "window outside the line", 316: "window is not the text of the line", 317: "short line is not shown in full", 318: "window does not contain the position", 319: "caret is not under the position", 320: "line after the range", 321: "following line differs from the text", 322: "following line has the wrong number", 330: "writing fails", 331: "writing fails", 332: "parse_errstr accepts what parse rejects", 333: "syntax_errstr accepts what syntax rejects",
 350: "empty conversion error", 351: "not a conversion error", 352: "new search is not at the start", 353: "read succeeds on another item", 354: "wrong value read", 355: "read succeeds or fails wrongly", 356: "error not at the item", 357: "search not where it must be after the read", 358: "wrong range of the last item",
 360: "scan continues at the wrong place", 361: "scan passes the wrong range", 362: "scan calls back without a match", 363: "scan calls back not exactly once", 364: "scan does not return what the callback returns", 365: "scan changes the callback's error", 366: "scan succeeds without a match", 367: "error of a scan not where the search was", 368: "scan moved the search", 369: "nested scan differs",
 380: "cursor starts with the wrong length", 381: "read succeeds on another item", 382: "wrong value", 383: "read succeeds or fails wrongly", 384: "reading moved the cursor", 385: "range of one item is not one", 386: "ignore does not skip one item or node", 387: "ignore goes past the end", 388: "difference of cursors is wrong", 389: "source of nothing", 390: "wrong source range", 391: "no source range", 392: "earlier cursor changed", 393: "update does not advance by the range",
 410: "threads wait for each other for ever", 411: "two threads use the same memory, one writing, without an order between them", 412: "a thread's result differs from the one of a single thread", 413: "a thread's error differs from the one of a single thread", 414: "a thread accepts what a single thread does not, or the other way round", 415: "a thread gave no result", 416: "something is still held after the threads ended",
 400: "files that cannot be read as text give meta data", 401: "a faulty syntax gives meta data", 402: "a faulty document gives a result", 403: "the report is not printed", 404: "loading gives other meta data than parsing the contents", 405: "something is printed without an error", 406: "valid files are not loaded", 407: "meta data although a needed read failed", 408: "another value comes back",
 999: "harness precondition does not hold",
}

def E(names, covers, opts=None): return [(n, dict(opts or {}), covers) for n in names.split()]

GRAMMARS = ("every grammar that has a select as written and optimized; grammar families over the rule constructors with symbolic bytes and flags: 'two' every composite (select, sequence, optional, not, repeat, separated by) over composites of tokens; 'chain' three levels; 'wide3' three operands; "
  "'last' long last operand; 'refs' two rules with references (named, unnamed, recursive); 'terms' all terminals in sequence; 'mixed' every composite over a composite of every terminal; 'json', 'expr', 'stmts', 'kv' whole grammars written in the meta language; 'lines'/'indent' line and block rules. ")
OUT = "longer texts, deeper or wider grammars, more distinct characters than the stated alphabets"

PROPS = {
 "C01": {"bounds": GRAMMARS + "Texts: two 5 bytes of {a,b}, chain 4, terms 5, refs 5, json 7 (8), lines 4 slots, indent 6, utf8/stop 3 characters of every width, mixed 2.", "outside": OUT,
  "quick": E("h_c01_two h_c01_chain h_c01_terms h_c01_refs h_c01_lines h_c01_lines_wide h_c01_indent", [0, 1, 2, 3, 4, 5]) + E("h_c01_utf8 h_c01_json h_c01_stop h_c01_mixed", [0, 1, 2, 3, 4]) + E("h_c01_empty", [3]) + E("h_c01_names", [0, 1, 2, 3]),
  "thorough": E("h_c01_two h_c01_chain h_c01_terms h_c01_refs h_c01_lines h_c01_lines_wide h_c01_indent h_c01_two7 h_c01_lines6", [0, 1, 2, 3, 4, 5]) + E("h_c01_utf8 h_c01_json8 h_c01_stop h_c01_mixed h_c01_json9", [0, 1, 2, 3, 4]) + E("h_c01_empty", [3]) + E("h_c01_names", [0, 1, 2, 3])},
 "C02": {"bounds": "Each terminal rule with symbolic flags, optional property and symbolic characters, at the start, after an ASCII and after a 3-byte character, followed by a rule that reads the rest: tag texts of up to 2 characters (any 1-2 byte UTF-8; one of any width) or 3-4 of {a,b} against up to 3-5 characters; white space against 3 characters of all ASCII and 2-byte UTF-8, or one of any width; until sets of 2 characters; strings of 5 bytes of quote, backslash, n,u,a,x, new line, NUL, every escape byte, all four hex digits (symbolic); numbers of 4 bytes of 0179.eE+-_ space a, and structured numbers up to 9 bytes.",
  "outside": "longer literals, numbers with more digits (exponents of 20 and more digits are a known finding of the dependency)",
  "quick": E("h_c02_tag h_c02_tag_long h_c02_tag_wide h_c02_ws h_c02_ws_wide h_c02_until h_c02_until_ws h_c02_until_wide", [0, 1]) + E("h_c02_text h_c02_text_esc h_c02_text_unicode h_c02_num h_c02_num_digits h_c02_num_all_digits", [0, 1]) + E("h_kf_number", []),
  "thorough": E("h_c02_tag h_c02_tag_long h_c02_tag_wide h_c02_ws h_c02_ws_wide h_c02_until h_c02_until_ws h_c02_until_wide", [0, 1]) + E("h_c02_text h_c02_text_esc h_c02_text_unicode h_c02_num h_c02_num_digits h_c02_num_all_digits h_c02_num6 h_c02_text7", [0, 1]) + E("h_kf_number", [])},
 "C03": {"bounds": GRAMMARS + "Texts: two 5 of {a,b}, chain 4, wide3 5, last 6, refs 5, terms 5, json/expr/stmts/kv 7, mixed 3 of {a, space, quote, 1}; thorough: four levels (2), json/expr/stmts/kv 9, mixed 4.", "outside": OUT,
  "quick": E("h_c03_two h_c03_chain h_c03_wide3 h_c03_last h_c03_refs h_c03_terms h_c03_json h_c03_expr h_c03_stmts h_c03_kv h_c03_mixed", [0, 1, 2, 3]),
  "thorough": E("h_c03_two h_c03_chain h_c03_wide3 h_c03_last h_c03_refs h_c03_terms h_c03_json9 h_c03_expr9 h_c03_stmts9 h_c03_kv9 h_c03_mixed4 h_c03_deep h_c03_two7", [0, 1, 2, 3])},
 "C04": {"bounds": "13 item rules (tokens, multi-line, optional, until, nested lines, references, repeats, ...) in a lines rule in 6 surroundings; texts of 5 (7) slots of {a, b, space, new line}, with tab and carriage return (5, 6), with one wide letter (5); key-value documents of 6 bytes.", "outside": OUT + "; wide white space directly before a new line (known finding of the dependency)",
  "quick": E("h_c04_lines h_c04_breaks h_c04_wide h_c04_kv", [0, 1, 2, 3]) + E("h_kf_lines", []),
  "thorough": E("h_c04_lines h_c04_breaks h_c04_wide h_c04_kv h_c04_lines7 h_c04_breaks7", [0, 1, 2, 3]) + E("h_kf_lines", [])},
 "C05": {"bounds": "8 grammars of indented blocks (nested, two blocks under a line, abandoned blocks, repeated headers, blocks in plain lines, optional and forbidden prefixes); texts of 7 (9) bytes of {a,b,c,space,new line}, 11 (14) of {a,space,new line} for the nested one, 8 of {a,b,space,new line}; starting indentation 0-3, both alignments, tab width 1-4 with texts of 5 (7) with tabs.", "outside": OUT,
  "quick": E("h_c05_two h_c05_settings h_c05_tabs h_c05_around h_c05_long", [0, 1, 2, 3]),
  "thorough": E("h_c05_two9 h_c05_settings h_c05_tabs7 h_c05_around h_c05_long h_c05_long14", [0, 1, 2, 3])},
 "C06": {"bounds": GRAMMARS + "0-2 items in the output before parsing; every text parsed twice, then once more on top of the result. Texts: two 5, chain 4, last 6, refs 5, terms 5, stmts 7 (9), json 6 (8), lines 4, indent 7, mixed 2, wide3 5.", "outside": OUT,
  "quick": E("h_c06_two h_c06_chain h_c06_last h_c06_refs h_c06_terms h_c06_stmts h_c06_json h_c06_lines h_c06_indent h_c06_mixed", [0, 1, 2, 3]),
  "thorough": E("h_c06_two h_c06_chain h_c06_last h_c06_refs h_c06_terms h_c06_stmts9 h_c06_json8 h_c06_lines h_c06_indent h_c06_mixed h_c06_wide3", [0, 1, 2, 3])},
 "C07": {"bounds": GRAMMARS + "Texts: refs 5, terms 5, utf8 3 of every width, json 7 (9), expr 6 (9), stmts 7 (9), lines 4, indent 7, two 5, mixed 3.", "outside": OUT,
  "quick": E("h_c07_refs h_c07_terms h_c07_utf8 h_c07_json h_c07_expr h_c07_stmts h_c07_lines h_c07_indent h_c07_two h_c07_mixed", [0, 1, 2, 3]),
  "thorough": E("h_c07_refs h_c07_terms h_c07_utf8 h_c07_json9 h_c07_expr9 h_c07_stmts9 h_c07_lines h_c07_indent h_c07_two h_c07_mixed", [0, 1, 2, 3])},
 "C08": {"bounds": GRAMMARS + "Texts: two 5, chain 4, last 6, wide3 5, refs 5, terms 5, utf8 3, stmts 7 (9), json 7 (9), lines 4, indent 6, mixed 3.", "outside": OUT,
  "quick": E("h_c08_two h_c08_chain h_c08_last h_c08_wide3 h_c08_refs h_c08_terms h_c08_utf8 h_c08_stmts h_c08_json h_c08_lines h_c08_indent h_c08_mixed h_c08_literals", [0, 1, 2, 3, 6]),
  "thorough": E("h_c08_two h_c08_chain h_c08_last h_c08_wide3 h_c08_refs h_c08_terms h_c08_utf8 h_c08_stmts9 h_c08_json9 h_c08_lines h_c08_indent h_c08_mixed h_c08_literals", [0, 1, 2, 3, 6])},
 "C09": {"bounds": GRAMMARS + "Parsed as written, optimized, and optimized twice. Texts: two 5, chain 4, wide3 4, last 5, refs 5, terms 5, utf8 3, json 6 (8), stmts 6 (8), expr 7, lines 3, indent 6, mixed 2; selects of 2 (3 bytes) and 3 (2 bytes) alternatives of 9 kinds; tails of 5 alternatives; selects of 127-250 alternatives over all first bytes against any character; 255, 256 and 300 alternatives; a select in 12 places.", "outside": OUT,
  "quick": E("h_c09_literals h_c09_select2 h_c09_tail h_c09_many h_c09_huge h_c09_within h_c09_two h_c09_refs h_c09_terms h_c09_utf8 h_c09_lines h_c09_wide3 h_c09_last h_c09_indent h_c09_stmts h_c09_json", [0, 1, 2, 3, 7, 8]),
  "thorough": E("h_c09_literals h_c09_select2 h_c09_select3 h_c09_tail h_c09_many h_c09_huge h_c09_within h_c09_two h_c09_chain h_c09_refs h_c09_terms h_c09_utf8 h_c09_lines h_c09_wide3 h_c09_last h_c09_indent h_c09_stmts8 h_c09_json8 h_c09_expr h_c09_mixed", [0, 1, 2, 3, 7, 8])},
 "C10": {"bounds": "every terminal with symbolic content against 2 slots incl. wide characters; every composite (select of 1-2, sequence of 0 and 2, optional, not, repeat, separated by, lines) over every leaf, over composites (2 levels; 3 and 4 in thorough with fewer leaves), references and circles of three rules; texts of 2 bytes; dispatch tables of 0-4 symbolic alternatives and of 130-300 alternatives.", "outside": OUT,
  "quick": E("h_c10_leaf h_c10_one h_c10_two h_c10_chain", [0, 1, 2]) + E("h_c10_table h_c10_table_big", [3]),
  "thorough": E("h_c10_leaf h_c10_one h_c10_two h_c10_chain h_c10_three h_c10_four", [0, 1, 2]) + E("h_c10_table h_c10_table_big", [3])},
 "C11": {"bounds": "every construct of the meta language with every combination of its flags, properties, character sets and string references (leaf); in every composite (comp), two levels (two), three levels (thorough); four layouts of white space at every gap (gaps), any one or two white space bytes at every gap (space); one quoted text of two of any characters or any escape, and node names of two characters of any width (chars).", "outside": "longer texts inside quotes, more than three levels",
  "quick": E("h_c11_leaf h_c11_comp h_c11_two h_c11_gaps h_c11_chars h_c11_strings h_c11_space", [0]),
  "thorough": E("h_c11_leaf h_c11_comp h_c11_two h_c11_gaps h_c11_chars h_c11_strings h_c11_space h_c11_three", [0])},
 "C12": {"bounds": "meta data of two documents with one item replaced, inserted, removed, duplicated, swapped or everything after cut, at every position with every kind and every name of the format (31) and odd numbers; one item of any kind and any name (symbolic letters of all lengths the format uses) put in or in the place of another at every position; any two such items after 1-5 items of a node and inside 14 composites, any list of 2 (3) of them; every contiguous part of three documents; any list of up to 3 (4) items; (thorough) any 2 items and any 3 of fewer names inside 14 composites; nests of 4, 12 and 24 levels with one change; thorough: two changes in three small documents.", "outside": "nesting beyond what the stack holds; more changes at once",
  "quick": E("h_c12_doc0 h_c12_doc1 h_c12_names0 h_c12_names1 h_c12_part h_c12_inside_open h_c12_deep", [0, 1, 2]) + E("h_c12_any h_c12_any4 h_c12_list", [0, 1]) + E("h_c12_start", [1]),
  "thorough": E("h_c12_doc0 h_c12_doc1 h_c12_names0 h_c12_names1 h_c12_part h_c12_inside h_c12_inside_open h_c12_inside3 h_c12_deep h_c12_twice", [0, 1, 2]) + E("h_c12_any h_c12_any4 h_c12_list h_c12_list3", [0, 1]) + E("h_c12_start", [1])},
 "C13": {"bounds": "one and two node documents with every construct (leaf), composites of one and two (three) levels and up to 300 parts; node numbers of 1-3 symbolic digits, around 2^64/1000 and 17 odd numbers; the id of the error for every text of 4 bytes of a 3-rule document.", "outside": "more than 1000 rules in a node",
  "quick": E("h_c13_leaf h_c13_comp h_c13_two h_c13_many", [0]) + E("h_c13_number h_c13_error", [0, 1]),
  "thorough": E("h_c13_leaf h_c13_comp h_c13_two h_c13_many h_c13_three", [0]) + E("h_c13_number h_c13_error", [0, 1])},
 "C14": {"bounds": "1-3 rules with symbolic names of up to 2 of {a,b} and a reference in 10 places; documents of three nodes in 4 forms; 2-3 named strings used in 5 places; an undefined name in 6 grammars against 3 bytes.", "outside": "longer names, more rules",
  "quick": E("h_c14_names", [0, 1, 2, 3]) + E("h_c14_doc h_c14_strings", [0, 1]) + E("h_c14_undefined", [0, 3]),
  "thorough": E("h_c14_names h_c14_names4", [0, 1, 2, 3]) + E("h_c14_doc h_c14_strings", [0, 1]) + E("h_c14_undefined", [0, 3])},
 "C15": {"bounds": "three documents with one byte replaced (27 symbolic bytes), inserted, removed, a wide letter put in, or cut, at every position; any text of up to 4 of 15 bytes; any right side of up to 4 (5) of 19 bytes; two rules of 8 forms referring to each other.", "outside": "more changes at once, longer texts; wide white space before a new line (known finding of the dependency); nesting beyond what the stack holds",
  "quick": E("h_c15_doc0 h_c15_doc1 h_c15_doc2 h_c15_short h_c15_rule h_c15_long", [0, 1]) + E("h_c15_refs", [0]),
  "thorough": E("h_c15_doc0 h_c15_doc1 h_c15_doc2 h_c15_short h_c15_rule h_c15_long h_c15_rule5 h_c15_all0 h_c15_all1", [0, 1]) + E("h_c15_refs", [0])},
 "C16": {"bounds": GRAMMARS + "16 rules that can read nothing, two at a time, in 7 repeating surroundings; texts of 2 (4) of {a,b,space,new line,quote}; two 5, refs 5, utf8 3, lines 4, indent 5 with settings and tabs, mixed 3; three terminals in sequence against 3 characters with wide letters and white space; 4 bytes of number and string characters. A path of more than 20 million instructions counts as not terminating.", "outside": OUT + "; left recursive grammars; wide white space before a new line and exponents of 20 digits (known findings of the dependency)",
  "quick": E("h_c16_endless h_c16_two h_c16_refs h_c16_utf8 h_c16_lines h_c16_indent h_c16_chars h_c16_literals h_c16_mixed", [0, 2, 3, 6]) + E("h_kf_lines_panic h_kf_exponent", []),
  "thorough": E("h_c16_endless4 h_c16_two h_c16_refs h_c16_utf8 h_c16_lines h_c16_indent h_c16_chars h_c16_literals h_c16_mixed", [0, 2, 3, 6]) + E("h_kf_lines_panic h_kf_exponent", [])},
 "C17": {"bounds": "strings of up to 3 (4) symbolic ASCII characters (all 128), one character of any width (whole code space), one wide character with an ASCII character on either side, and strings of 7-40 characters with two symbolic characters at any place.", "outside": "longer strings with more special characters",
  "quick": E("h_c17_ascii h_c17_two h_c17_mixed h_c17_long", [0, 1]), "thorough": E("h_c17_ascii4 h_c17_two h_c17_mixed h_c17_long", [0, 1])},
 "C18": {"bounds": "every well nested list of up to 5 (6) items with symbolic bools; up to 2 (3) items with symbolic names and strings with quotes, backslashes, control characters and 16 numbers; nests of 1-40 levels; any list of up to 6 items, nested or not; lists read from a text of 5 bytes.", "outside": "numbers other than the 16, longer lists; numbers that are not finite have no JSON form",
  "quick": E("h_c18_shape h_c18_shape5 h_c18_values h_c18_deep", [0, 1]) + E("h_c18_any", [0, 1]) + E("h_c18_odd", [0]) + E("h_c18_parsed", [0, 3]),
  "thorough": E("h_c18_shape5 h_c18_shape6 h_c18_values h_c18_values3 h_c18_deep", [0, 1]) + E("h_c18_any", [0, 1]) + E("h_c18_odd", [0]) + E("h_c18_parsed", [0, 3])},
 "C19": {"bounds": "every text of up to 4 slots of {a, space, tab, new line} with one wide letter (up to 7 ASCII; 5 slots with three of six wide characters), every position and range of up to 3 bytes, expected-token and other errors; all 14 kinds of error; messages; lines of 0-200 (45-156) characters of 5 fillers with symbolic characters at every limit; documents of up to 99 lines before a symbolic end; errors of parsing 5 characters and of reading a syntax.", "outside": "longer texts, other fillers",
  "quick": E("h_c19_short h_c19_kinds h_c19_ascii h_c19_lines h_c19_long", [0]) + E("h_c19_wide5", [0, 3, 4]) + E("h_c19_msg", [0, 4]) + E("h_c19_parse", [0, 3]) + E("h_c19_syntax", [0, 3]),
  "thorough": E("h_c19_short h_c19_kinds h_c19_ascii h_c19_lines h_c19_long h_c19_every", [0]) + E("h_c19_wide5", [0, 3, 4]) + E("h_c19_msg", [0, 4]) + E("h_c19_parse", [0, 3]) + E("h_c19_syntax", [0, 3])},
 "C20": {"bounds": "any 0-2 items of every kind with symbolic names of up to 2 characters, bools, eight numbers (NaN, both zeros, neighbours) and strings, two reads of any kind; up to 3 items and 3 reads, 4 items and 4 reads (thorough) with one-character names; reads after a scan; any double at all (64 symbolic bits).", "outside": "longer lists",
  "quick": E("h_c20_two h_c20_three", [0, 1, 2]) + E("h_c20_after_scan h_c20_double", [0, 1]), "thorough": E("h_c20_two h_c20_three h_c20_four", [0, 1, 2]) + E("h_c20_after_scan h_c20_double", [0, 1])},
 "C21": {"bounds": "any 0-4 (5) items of every kind with symbolic names and values, a scan of any kind from the start or after a read, the callback succeeding or failing; a scan within a scan of 4 items; any two doubles (64 symbolic bits each) searched for each of eight numbers.", "outside": "longer lists",
  "quick": E("h_c21_two h_c21_three h_c21_four h_c21_double", [0, 1, 2]) + E("h_c21_nested", [0, 1]), "thorough": E("h_c21_two h_c21_three h_c21_four h_c21_five h_c21_double", [0, 1, 2]) + E("h_c21_nested", [0, 1])},
 "C22": {"bounds": "any 0-4 items of every kind, three operations (reads of five kinds, ignore, going back to any earlier cursor and forward by the difference); names of up to 2 characters in lists of 2; any double at all; ignoring through any list of up to 8 starts, ends and values.", "outside": "longer lists and histories",
  "quick": E("h_c22_two h_c22_three h_c22_four h_c22_names", [0, 1, 2, 3, 4]) + E("h_c22_ignore h_c22_double", [0, 1]), "thorough": E("h_c22_two h_c22_three h_c22_four h_c22_five h_c22_names", [0, 1, 2, 3, 4]) + E("h_c22_ignore h_c22_double", [0, 1])},
 "C23": {"bounds": "assets/self-syntax.txt as it is in the tree against bootstrap::rules(): the description itself, two documents with one symbolic change at every position, any text of up to 4 of 15 bytes, any right side of up to 4 of 19 bytes, comments of 5 bytes, every construct and composite of C11, with any characters in quotes and names.", "outside": "longer texts, several changes at once",
  "quick": E("h_c23_fixpoint", [0]) + E("h_c23_short h_c23_rule h_c23_comment h_c23_doc0 h_c23_doc1", [0, 1]) + E("h_c23_leaf h_c23_comp h_c23_two h_c23_chars", [0]),
  "thorough": E("h_c23_fixpoint", [0]) + E("h_c23_short h_c23_rule h_c23_comment h_c23_doc0 h_c23_doc1 h_c23_rule5", [0, 1]) + E("h_c23_leaf h_c23_comp h_c23_two h_c23_chars", [0])},
 "C24": {"bounds": "pairs of terminals of one kind with symbolic texts (2 characters), names, flags, properties and ids, with any character of up to 3 bytes and any 64-bit ids and indices; pairs of composites; all 15 x 15 kinds; optimized selects of up to 2 (3) alternatives; nested rules differing in any of eight places; syntaxes of up to two rules; documents of two constructs read twice.", "outside": "larger rules",
  "quick": E("h_c24_leaf h_c24_any h_c24_comp h_c24_kinds h_c24_nested h_c24_syntax h_c24_documents", [0, 1]) + E("h_c24_select h_c24_select3", [0, 1, 2]),
  "thorough": E("h_c24_leaf h_c24_any h_c24_comp h_c24_kinds h_c24_nested h_c24_syntax h_c24_documents", [0, 1]) + E("h_c24_select h_c24_select3", [0, 1, 2])},
 "C25": {"schedules": True, "bounds": "two and three threads; every order of starting, of going on after one waits or ends, and up to 3 (5) preemptions before any atomic operation; first use of the built-in rules by 2 threads (a symbolic syntax text) and 3 threads, together with parsing; documents of up to 3 symbolic bytes for each of two threads against one shared syntax of three rules, and up to 2 and 1 bytes against every kind of rule, optimized or not; copies of a syntax and of its meta data cloned, optimized, written and dropped by two threads; files loaded by two threads. Unordered access to the same memory is reported where it happens, so switching only at atomic operations loses nothing.", "outside": "more threads, more preemptions; memory orders weaker than the happens-before relation the engine tracks (values follow one order of all operations); reference counts are taken to commute",
  "quick": E("h_c25_first3 h_c25_first_three h_c25_pipeline h_c25_parse_deep h_c25_kinds", [0, 1]) + E("h_c25_mixed", [0, 1, 2, 3]) + E("h_c25_copies h_c25_three h_c25_files", [0]),
  "thorough": E("h_c25_first5 h_c25_first_three h_c25_first_three3 h_c25_pipeline h_c25_parse_deep h_c25_parse_more h_c25_kinds h_c25_kinds_more", [0, 1]) + E("h_c25_mixed", [0, 1, 2, 3]) + E("h_c25_copies h_c25_three h_c25_files", [0])},
 "C26": {"bounds": "a syntax of two rules against any document of up to 5 of 10 bytes; documents of up to 3 and syntaxes with up to 2 bytes of all 256 values (text or not); syntaxes with one byte replaced, removed, or cut anywhere; one file as both; documents of 31-20000 bytes and syntaxes of up to 11000 bytes with symbolic bytes at the end and in the middle; each file missing, a directory, or one of the first six reads failing or interrupted, or every read giving one byte; stderr_unwrap on its own.", "outside": "longer symbolic contents; the operating system's part is a model (open, read, fstat, close, write)",
  "quick": E("h_c26_data h_c26_long h_c26_twice h_c26_unwrap", [0, 1]) + E("h_c26_bytes", [0, 1, 2]) + E("h_c26_syntax h_c26_both h_c26_same h_c26_long_syntax", [0, 3]) + E("h_c26_syntax_bytes", [0, 1, 2, 3]) + E("h_c26_faults", [0, 1, 2]),
  "thorough": E("h_c26_data h_c26_data7 h_c26_long h_c26_twice h_c26_unwrap", [0, 1]) + E("h_c26_bytes h_c26_bytes4", [0, 1, 2]) + E("h_c26_syntax h_c26_both h_c26_same h_c26_long_syntax", [0, 3]) + E("h_c26_syntax_bytes", [0, 1, 2, 3]) + E("h_c26_faults", [0, 1, 2])},
}
