AI = 'path-partitioned abstract interpretation of the MIR'
CLAIMS = {
 'C13': (AI + ', range and character-class facts per path', 'Decides the whole statement for the four validate functions and their callees: every abstract path is matched against calendar and clock rules evaluated on representatives of its facts. Paths through constructs the domain does not model are skipped and counted.'),
 'C14': (AI + ', term equality of constructed values', 'Every constructor, unknown arguments: component placement and padding by term equality, validity by interpreting validate under the facts of the path.'),
 'C19': (AI + ' of the PartialEq implementations', 'Every path of every eq of the public value types: true only with all components decided equal, false only with some component or the kind decided different. Lists up to length 3, comparison of list elements is per position.'),
 'C20': (AI + ', term equality', 'All key lists up to length 3 on both sides (texts unbounded); the loop body treats keys uniformly, longer lists are not separately analysed.'),
 'C21': (AI + ', term equality of produced keys', 'Children lists up to length 3 and counted children for every count class the code distinguishes by its own constants; base and child texts unbounded.'),
 'C02': (AI + ', the grammar replaced by an unknown function', 'Decides how parse and its entry points turn the outcome of the grammar (left-over text, recorded errors, failure) into the result, for every outcome. That the grammar leaves over exactly what it did not consume is not part of this check.'),
 'C03': (AI + ', provenance of the state the grammar starts from, and effect analysis (statics, thread locals)', 'Every path of parse hands the grammar a fresh parser state and keeps nothing of the old one; no mutable static or thread-local state is reachable from parsing.'),
 'C04': (AI + ', before/after equality of the document memory', 'Documents and values of every shape up to three levels and three elements (longer lists at the lengths the code distinguishes by its own constants), texts and the rest of the document unbounded. Value::validate is replaced by its contract (C13, C14, C15).'),
 'C05': (AI + ', term equality of document and given value', 'Bounds as C04. Formatting is compared component by component.'),
 'C06': (AI + ', term equality of children and lookups with the new value', 'Bounds as C04. Keys that are textually equal to keys of the rest of the document are not considered.'),
 'C07': (AI + ' as an effect analysis', 'get_value and get_children on documents of every small shape, printing, comparison and validation on unknown arguments; every location reachable from the arguments is compared before and after.'),
 'C08': (AI + ', term equality of document and returned value', 'Documents of every shape up to three levels and four elements, texts unbounded.'),
 'C09': (AI + ', panic reachability', 'Every public entry point that does not parse, on unknown arguments (lists up to three elements, two levels of nesting); set_value and the lookups after it on documents and values of every small shape. Bool-valued entry points called by others are summarised by both answers; a panic counts only if it is confirmed without the summary.'),

 'C01': (AI + ', each parsing function against the contracts of the others', 'Every parsing function, every path: the node it returns prints as exactly the text it consumed, the others being replaced by contracts derived by a fixpoint. Lists read by a repetition are taken at lengths up to two per call; nom\'s own combinators are interpreted, the regex crate is modelled.'),
 'C10': (AI + ', panic reachability with shown invariants of the parser state, each parsing function against the contracts of the others; cycles of the call graph', 'Every parsing function on an unknown text; the header functions with up to two keys (thorough: three) after every kind of earlier headers the code distinguishes. Stack exhaustion by recursion is reported per cycle of the call graph. Running out of memory and non-termination are not covered.'),
 'C11': (AI + ', term equality of map entries before and after', 'The registering function for key paths up to three parts, no table / table / array of tables, with and without earlier errors, key texts and map contents unbounded. That every value read is registered is C26; headers given twice are C27.'),
 'C12': (AI + ', each parsing function against the contracts of the others', 'Every parsing function, every path, with and without earlier errors. Validity itself is C13.'),
 'C17': (AI + ', sums of newline counts', 'Every parsing function, every path; the counting function by language equality of its regular expression with a line. Texts unbounded, repetitions as C01.'),
 'C18': (AI + ', each parsing function against the contracts of the others', 'The function that reads one value, for every pair of types and with and without earlier errors; the stack of types for every other function.'),
 'C26': (AI + ', each parsing function against the contracts of the others', 'Every parsing function for small concrete key paths (up to three parts, texts unbounded); the registering function as C11. Inside invalid tables nothing is claimed; the key of the table itself is C27.'),
 'C22': (AI + ' of the program, effect log checked per path', 'main() with the file system, terminal, option parser, list reader and library entry points replaced by models that fork on their outcomes: every path of a set of command lines (every command, lists of 0 to 9 fields, output file or not), every I/O outcome. That a document prints completely is the library\'s business (C01).'),
 'C23': (AI + ' of the program, printed text compared with a specification of the output', 'Option definitions by the option parser\'s own rules; printed text for 220 combinations of commands and options (lists up to three entries, children up to two keys), texts unbounded. What is printed with too short lists of true and false values is not checked.'),
 'C24': (AI + ' of the program, effect log checked per path (typestate: open, read, parsed)', 'As C22: every outcome of opening, reading and parsing, every command, file names from the command line and from standard input (two lines).'),
 'C25': (AI + ' of the program, provenance of stored values', 'Every type name and an unknown one, lists of 0 to 9 fields, texts unbounded; the value constructors themselves are C14.'),
 'C15': (AI + '; printed texts and the value reader as automata over texts, language inclusion', 'Every scalar type and string style, date-times of every make-up, keys of inline tables; contents of any length. Paths of validate whose facts about the text are not regular are skipped and counted; relations between the numbers of a date are left out. That what is read holds the same content is C01.'),
 'C16': (AI + '; the paths of every reading function as automata over texts with the end of reading marked, language equality', 'The functions for values (per type and string style), keys, blanks, line breaks, comments and separators against TOML\'s forms, for texts of any length; arrays and inline tables only by their first character (their make-up is C01). A function with a path whose facts are not regular is skipped and counted.'),
 'C28': ('path-partitioned abstract interpretation of the MIR: monotonicity of the key map over every step that changes it (induction over the document), by comparison of each entry with what the path knows it was', 'Every header of one to two keys (thorough: three) and every value, on an unknown map, with up to two open tables before. Assumed: an entry is among the children of its parent (C26), the lists of open arrays of tables are registered. Whether TOML allows a header is not decided (C27).'),
}
NA = {'C27': 'Whether a header is allowed depends on all headers and keys before it. The map of keys that carries this history grows without bound, and the rule is no invariant of it that one step preserves: this parser keeps one list entry per name and by design reports some headers TOML allows (re-opened arrays of tables, tables below a table that has values), so a per-path comparison with TOML\'s rule would raise alarms on correct code or decide nothing. What is local to one step is decided by C10 (no panic for any order of headers), C20 (which open array of tables a header belongs to) and C26 (key paths).'}
