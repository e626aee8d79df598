import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
PR="src/internals/primitives.rs";OB="src/internals/objects.rs";TM="src/internals/toml.rs";UT="src/internals/util.rs"
PA="src/internals/parser.rs";ST="src/internals/ast/structs.rs";TY="src/types.rs";BI="src/bin/tomlkit.rs";LI="src/lib.rs"
GR=[PR,OB,TM,UT]
p("C01","Printing an unmodified document reproduces its text byte for byte",
 "Whatever text the parser consumes, printing the parsed document before any update gives exactly that text again: every comment, blank, newline style, key spelling, number spelling, quote style and separator, in the original order. If parsing stops early, the printed text followed by the reported leftover is the original input.",
 ["inputs"],"for every input text, in every combination of optional parts (comments, separators, fractions, offsets, nested arrays and inline tables) and every list length",
 "Round-trip tests compare a dozen hand-written documents; the guarantee is over all documents, and a field dropped or swapped for one optional combination of one construct survives them.",
 GR+[ST,TY,PA],[("grammar actions build the tree",OB+" "+TM+" "+PR+" "+UT),("Display implementations write it back",ST+", "+TY)],["format!(\"{}\", parser)"])
p("C02","The parse result tells exactly what was consumed and whether errors occurred",
 "Parsing reports a full result exactly when no text is left over, an error-carrying result exactly when at least one error was recorded, and a failure only when nothing could be parsed. A partial result carries exactly the unconsumed rest of the input, and an error-carrying result carries exactly the errors recorded while parsing.",
 ["inputs"],"for every input text and every combination of leftover and recorded errors",
 "The tests look at the variant for a few documents and hardly at the payload; the classification must hold for every input.",
 [PA,LI,TY],[("Parser::parse classifies the outcome",PA),("TOMLParser::parse forwards it",LI)],["TOMLParser::parse"])
p("C03","Parsing starts fresh: an earlier document never influences a later one",
 "The result of parsing a text, and everything the parser then reports through lookups, children, errors, line numbers and printing, depends only on that text. Nothing of a document parsed earlier with the same parser, or of updates made to it, survives into the next parse.",
 ["histories"],"for every sequence of parses and updates on one parser",
 "Tests parse once per parser; histories of several parses are never sampled.",
 [PA,LI],[("Parser::parse resets its state",PA)],["TOMLParser::parse, then any query"],[("parser fields","tree, key map, errors, path stacks, flags, line counter",PA)])
p("C04","A rejected update leaves the document completely unchanged",
 "When setting a value reports failure (unknown key, table key, or invalid value at any nesting depth) the printed document, every lookup and every list of children are exactly as before. No part of a rejected array or inline table is stored.",
 ["inputs","histories"],"for every document, key and value, valid or not, at every nesting depth",
 "Tests only set values that are accepted, so the failure paths of the update are not exercised at all.",
 [PA,LI],[("Parser::set_value validates before it changes anything",PA)],["TOMLParser::set_value returning false"])
p("C05","An accepted update stores exactly the given value and touches nothing else",
 "When setting a value succeeds, the lookup of that key returns the given value with the same type, content and nested elements in the same order, and the printed document shows it at the place of the old value. Every other value, comment, blank and key of the document stays as it was, and an update that only replaces scalars keeps the formatting of arrays and inline tables.",
 ["inputs","histories"],"for every document, existing value key and valid value of any type and shape",
 "Tests update a handful of keys of one document with one value each; type-by-type and shape-by-shape conversion is not covered.",
 [PA,ST],[("replace_values / convert_vector copy the new value into the shared cell",PA)],["TOMLParser::get_value and Display after set_value"])
p("C06","After an update, children and element lookups agree with the new value",
 "After a successful update that changes an array's or inline table's shape, or replaces it with another kind of value, the children reported for the key are exactly the new elements or keys, each element can be looked up and updated under its own key, and no key of a removed element answers any more. This holds at every nesting level of the new value.",
 ["inputs","histories"],"for every old value shape, new value shape and nesting depth",
 "Tests check the top-level value after one truncation and one extension, never the children or the keys of nested elements.",
 [PA],[("Parser::set_value drops the old sub-keys and registers the new ones",PA)],["TOMLParser::get_children, get_value on element keys"])
p("C07","Queries, printing and validation never modify the document",
 "Looking up values, listing children, printing a document or a value, validating a value and comparing values leave the document and all values unchanged. Repeating a query without an update in between gives the same answer.",
 ["histories","inputs"],"for every sequence of queries on every document",
 "Tests query once and never compare the state before and after; interior mutability lets any query write.",
 [PA,LI,TY,ST],[("read-only entry points over Rc<RefCell<..>> cells",PA)],["get_value, get_children, Display, validate"])
p("C08","A lookup returns the document's value with its type and content",
 "The value returned for a key has the type the document gives it and the same content: the same spelling for numbers, strings (with their quote style) and date-times, and the same elements or key-value pairs in document order for arrays and inline tables, at every depth. A key that names a table or does not exist has no value.",
 ["inputs"],"for every document and key, all value types, all nesting depths",
 "Tests look up some keys of a few documents; no test covers all types at all depths and element counts.",
 [PA,"src/internals/macros.rs"],[("Parser::get_value converts the stored node",PA)],["TOMLParser::get_value"])
p("C09","Lookups, updates, printing and validation never abort the program",
 "No call that looks up, lists children, updates, prints, validates, compares or constructs values panics, whatever the parsed document, key and value, including empty documents, empty arrays and inline tables, table keys, and values of any shape.",
 ["inputs","histories"],"for every document, key and value including empty and deeply nested ones",
 "A panic needs a particular shape (an empty list, a table key, an element missing); the tests sample only non-empty ordinary shapes.",
 [PA,LI,TY,ST],[("index, slice, arithmetic, unwrap and borrow operations on these paths",PA+", "+ST+", "+TY)],["all TOMLParser and Value methods except parse"])
p("C10","Parsing never aborts the program",
 "Parsing any text returns a parse result; it never panics, however malformed the text is or in whatever order tables, arrays of tables and keys appear.",
 ["inputs"],"for every input text",
 "The panics need unusual header orders; the tests sample valid documents and a few invalid ones.",
 GR+[PA],[("index and stack operations in table header handling",OB+", "+PR)],["TOMLParser::parse"])
p("C11","A duplicate key is reported and never replaces the first value",
 "When a key that already has a value is given another one, the second is reported as a duplicate key with its key, line and value, and lookups keep returning the first. A key given once is stored and is never reported as a duplicate.",
 ["inputs"],"for every document, at top level, in tables, arrays of tables and inline tables",
 "Tests hold a few duplicate documents and do not look the first value up afterwards for each context.",
 [PR],[("insert_keyval_into_map distinguishes absent, empty and present",PR)],["ParseError::DuplicateKey, get_value"])
p("C12","Every invalid date-time in a document is reported, every valid one is not",
 "A date-time in a document whose components are out of range is reported as an invalid date-time with its key, line and exact text, wherever it occurs (top level, table, array, inline table). No error is reported for a date-time that is valid.",
 ["inputs"],"for every document containing date-times, in every context",
 "Tests hold a few invalid date-times; whether every context runs the validation is not sampled.",
 [PR,TY],[("date_time validates what it lexed",PR)],["ParseError::InvalidDateTime"])
p("C13","Date-time validation accepts exactly the real calendar and clock values",
 "A date is valid exactly if it has a four-digit year from 0001, a two-digit month from 01 to 12 and a two-digit day that exists in that month (Gregorian leap years included). A time is valid exactly if it has a two-digit hour up to 23, minute up to 59 and second up to 59, a fraction made of one or more digits if any, and an offset of two-digit hour up to 23 and minute up to 59 if any.",
 ["inputs"],"for every text in every component, all years, months and days",
 "Tests sample a few dates; the quantifier is all component texts and all year-month-day combinations.",
 [TY],[("Date::validate, Time::validate, TimeOffset::validate, TimeOffsetAmount::validate, DateTime::validate",TY)],["validate methods, from_str constructors"])
p("C14","Value constructors return only valid values, each argument in its own component",
 "Every fallible value constructor returns a value exactly if that value validates, and an error otherwise. Each argument ends up in the component it names (year in year, fraction in fraction, offset minute in offset minute, sign in sign), zero-padded to the required width when given as an integer, and no component is invented or dropped.",
 ["inputs"],"for every constructor and all argument values",
 "Each constructor is tested with one argument tuple, often with equal components, so swaps or lost parts for other combinations are invisible.",
 [TY],[("Value::*_from_str, *_from_int, datetime_parse, string constructors; Date/Time/TimeOffsetAmount::from_str",TY)],["Value constructors"])
p("C15","A valid scalar value prints as text that reads back as the same value",
 "Every integer, float, boolean, date-time or string value that validates prints as TOML text which the parser reads back completely, as one value of the same type with the same content. A value whose printed form would be read differently, incompletely or as another type never validates. Every key of an inline table that validates is read back as one key.",
 ["inputs"],"for every scalar value content of every type and string style",
 "Tests validate a few typical contents; delimiters, control characters, trailing garbage and look-alikes of other types are not sampled.",
 [TY,PR],[("Value::validate re-lexes the content; Display adds the delimiters; val tries the types in order",TY+", "+PR)],["Value::validate, Display, TOMLParser::parse"])
p("C16","The text forms of values, keys, blanks and comments are exactly TOML's",
 "The parser takes a text as an integer, float, boolean, date-time, string of one of the four styles, bare or quoted key, blank, newline or comment exactly if TOML 0.4 as documented here says so (local date-times allowed, underscores only between digits, any Unicode scalar value from U+0020 on in strings and comments, of the characters below it only tab, and that not unescaped in single-line basic strings and quoted keys, line breaks as LF or CRLF in the multi-line strings, escapes only \\\" \\\\ \\/ \\b \\f \\n \\r \\t \\uXXXX \\UXXXXXXXX and, in multi-line basic strings, an escaped line break). When several forms share a prefix, the value is read as the form TOML assigns to the whole text.",
 ["inputs"],"for every text",
 "Tests lex a few examples per form; a changed bound of a character class or repetition needs an input exactly there.",
 [PR,UT,OB],[("regular expressions and character predicates of the lexer; order of alternatives in val, string, key",PR+", "+UT)],["TOMLParser::parse, Value::validate"])
p("C17","Reported line numbers count every newline before the reported place",
 "The line number in a parse error or partial result is one plus the number of newlines the parser has read up to there, no matter whether they separate expressions, or lie inside multi-line strings, arrays, comments or inline tables, and whether they are LF or CRLF.",
 ["inputs"],"for every document and position",
 "Tests check line numbers of errors in documents whose newlines are nearly all expression separators.",
 GR,[("line_count is advanced where newline-containing tokens are read",UT+", "+PR+", "+OB)],["line field of ParseError and ParseResult"])
p("C18","An array with values of different types is reported, a homogeneous one never is",
 "An array that contains two adjacent values of different types is reported as a mixed array with the array's key, independent of what other errors were reported before and of nesting. Arrays whose values all have one type are never reported.",
 ["inputs"],"for every array, every pair of value types, every error history",
 "Tests hold one or two mixed arrays with no earlier errors; all type pairs and error histories are not sampled.",
 [OB],[("array_value compares the type of each value with that of the previous one",OB)],["ParseError::MixedArray"])
p("C19","Equality of values compares every component",
 "Two dates, times, offsets, date-times, values, children or parse results compare equal exactly if they are of the same kind and all their components are equal; equality is reflexive and symmetric.",
 ["inputs"],"for every pair of values of the public types",
 "Tests compare equal values; that each single differing component makes values unequal is not sampled.",
 [TY],[("hand-written and derived PartialEq",TY)],["==, assert_eq on public types"])
p("C20","Headers attach to an array of tables only through whole equal keys",
 "A table header is a sub-table of an earlier header exactly if the earlier header's keys are, key by key, a leading part of its keys or all of them. Keys that merely share leading characters, or that print alike when joined, never relate two headers.",
 ["inputs"],"for every pair of headers with any number of keys",
 "Tests use headers with distinct first keys; prefixes within a key are not sampled.",
 [ST,OB],[("TableType::is_subtable_of decides which open array of tables a header belongs to",ST)],["get_children and get_value below arrays of tables"])
p("C21","Child keys combined with their parent's key are lookup keys",
 "Combining a key with its reported children yields, for every child and in order, exactly the key under which that child is looked up: key and child joined by a dot, an index in brackets for counted children, and the child alone below the document root.",
 ["inputs"],"for every base key, every number of children",
 "Tests combine one base key with one list of children; the agreement with the keys updates register is never compared.",
 [TY,PA],[("Children::combine_keys, combine_keys_index, combine_child_keys; key building in updates",TY+", "+PA)],["Children::combine_child_keys then get_value"])
p("C22","tomlkit writes a file only after all changes succeeded, and writes all of it",
 "tomlkit creates or truncates a file only when a set-value command succeeded for every key, and only after the whole new document has been rendered. It writes the complete document to the output file if one is given and to the input file otherwise, and reports write errors.",
 ["inputs","fault_sequences","configurations"],"for every command line, document and I/O error",
 "No test runs the tomlkit program.",
 [BI],[("process_document orders set_value and write_to_file",BI)],["files touched by tomlkit"])
p("C23","tomlkit honours every option it documents",
 "Every option given on the command line takes effect on the output it documents and on nothing else: separator, array begin, end, separator and length, true and false values, quote stripping, quietness of updates, printing the document, input and output file. Options not given keep their documented defaults.",
 ["configurations"],"for every combination of options",
 "No test runs the tomlkit program.",
 [BI],[("Options::new copies each match into its field; the commands use the fields",BI)],["standard output of tomlkit"])
p("C24","tomlkit acts only on documents that parsed completely and without errors",
 "If the input file cannot be read, or its text is not parsed completely or has errors, tomlkit reports that, ends with a failure status, and neither prints results nor changes any file.",
 ["inputs","fault_sequences"],"for every input file content and read error",
 "No test runs the tomlkit program.",
 [BI],[("process_document exits on every result but Full",BI)],["exit status, output and files of tomlkit"])
p("C25","tomlkit stores values with the type and content the command line names",
 "Each type name accepted by set-value, long or short, makes a value of exactly that type from exactly the given text, and a date-time keeps every component (date, time, fraction, offset or Z). An unknown type name, a text that is no such value, or a list that is not made of triples is an error.",
 ["inputs","configurations"],"for every type name and value text",
 "No test runs the tomlkit program.",
 [BI],[("set_value maps type names to constructors",BI)],["document written by tomlkit"])
p("C26","Every value read is registered for lookup with the very node that is printed",
 "Each value of a key, array element or inline-table entry read outside an invalid table is registered exactly once under its key path, and what is registered is the same node the printed document contains, so that lookups and updates always concern the value that is printed. Key-path bookkeeping is left balanced after every construct, so a construct never shifts the key paths of what follows.",
 ["inputs"],"for every document, nesting and order of constructs",
 "Tests look up a few keys; a node copied instead of shared, or an unbalanced path stack, shows only for particular constructs followed by others.",
 [PR,OB],[("keyval, array_value, array, inline_table register values and maintain the key chain",PR+", "+OB)],["get_value, set_value, Display"])
p("C27","Table headers are accepted or reported exactly as TOML's rules for tables say",
 "A table or array-of-tables header is reported as invalid exactly if TOML forbids it given the headers and keys before it, and the keys below a valid header are found under the header's key path, with the index of the current element for arrays of tables.",
 ["inputs","histories"],"for every sequence of headers and keys",
 "Tests sample some header sequences; the rule is over all sequences.",
 [OB,PR],[("std_table, array_table, add_implicit_tables, get_array_table_key",OB+", "+PR)],["ParseError::InvalidTable, get_value, get_children"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
