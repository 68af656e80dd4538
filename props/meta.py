"""The properties, what the checks of each cover, and what stands in for what."""
NOTES = "No hooks: the harness crates reach everything through the public API of pica-record and through the command line tool's own main function (its sources are included unchanged). `python3 check.py replay FILE` runs a reported counterexample natively."

FILES = "files, standard input and output are an in-memory file system that never fails"
HASH = "foldhash is replaced by a hasher that gives every key one of two constants (the iteration order of hash tables is one of two)"
POLARS = "polars (filter lists, describe) is replaced by a reader and writer of unquoted CSV that sorts and prints as polars does"
BAR = "the progress bar (indicatif) shows nothing"
RAND = "the random number generator is replaced by one whose every draw is an arbitrary value of the requested range"
CLI = [FILES, HASH, POLARS, BAR]

RUN = "Outside: larger inputs, other expressions, option combinations that are not listed, real files, locale and terminal."
LINES = "each line an arbitrary choice between a record and one of three lines that are not records (an empty line, one with an arbitrary byte in the tag, one with a malformed field)"
SELECT = "--where, --and, --or, --not, --limit, --allow-list, --deny-list (one combination per run)"

META = []


def P(id, title, statement, forall, why, files, mech, bounds, over=("inputs",), stand=()):
    META.append(dict(id=id, title=title, statement=statement, over=list(over), forall=forall, why=why, files=files, mech=mech,
                     bounds=bounds, stand=list(stand)))


C = "crates/pica-cli/src/"
P("P01", "Records decode exactly when well-formed and re-encode byte-identically",
  "A byte string decodes as a record exactly when it is one or more fields (tag, optional occurrence, blank, subfields, field terminator) followed by a single newline, and the decoded tags, occurrences, subfield codes and values are those in the bytes, in order. Writing a decoded record, in any of its representations, reproduces the input byte for byte. Constructing a record, or a tag, occurrence, subfield, value or field on its own, succeeds exactly for valid parts, and what is constructed is written as given.",
  "every byte string (any bytes, any length), every field and subfield count",
  "The unit tests decode a few dozen literals and a dump of valid records; acceptance is a statement about all byte strings, and the rare ones (a terminator inside a tag, an occurrence of one or four digits, an empty value, bytes that are not UTF-8) are not among them.",
  ["src/primitives/parse.rs", "src/primitives/record.rs", "src/primitives/field.rs", "src/primitives/subfield.rs", "src/primitives/tag.rs", "src/primitives/occurrence.rs", "src/record.rs"],
  [("record grammar", "src/primitives/parse.rs"), ("encoding", "src/primitives/record.rs"), ("raw byte shortcut", "src/record.rs")],
  "all byte strings of up to 22 bytes; a 52-byte record of four fields with any 3 adjacent bytes replaced by any bytes, any byte removed, any 2 bytes inserted (at every fourth place); records of up to 2 fields with up to 2 subfields of up to 3 arbitrary bytes; parts of up to 11 arbitrary bytes; constructed records with occurrences of up to 4 and values of up to 2 ASCII characters.")
P("P02", "All representations of a record agree on equality, hash, validity and text",
  "Two records, fields, subfields or values compare equal exactly when they are written alike, whether they are borrowed or owned and whether they were read or built, and equal records have equal hashes. A record becomes a text record exactly when all its values are valid UTF-8, and then shows the same values.",
  "all records and parts, all pairs of representations, all byte values",
  "The tests compare a handful of literals in one representation each; agreement is about all pairs of inputs across six representations.",
  ["src/record.rs", "src/primitives/record.rs", "src/primitives/field.rs", "src/primitives/subfield.rs", "src/primitives/occurrence.rs"],
  [("equality and hash of records", "src/record.rs"), ("UTF-8 validation", "src/primitives/record.rs"), ("equality of parts", "src/primitives/subfield.rs")],
  "values of up to 6 arbitrary bytes (equality: up to 3 on either side), arbitrary subfield codes, occurrences of none, two or three arbitrary digits.")
P("P03", "The reader delivers one item per line, however the input is chunked",
  "Reading a stream yields exactly one item per input line, in order, and then the end: the record if the line is a well-formed record, otherwise an error that names the line's number. An invalid line never affects the items for other lines, text records fail exactly for invalid UTF-8 values, and the result is independent of how the input arrives in pieces.",
  "every byte stream, every sequence of read sizes, byte and text records",
  "Tests read whole files of valid records or a fixed invalid line; no test varies the sizes of reads or mixes invalid lines at arbitrary positions.",
  ["src/reader.rs", "src/record.rs"],
  [("line buffering and numbering", "src/reader.rs")],
  "streams of up to 15 arbitrary bytes read at once, of 6 to 9 arbitrary bytes with the first 3 reads of any size up to 3; up to 3 lines of six shapes with arbitrary bytes at their critical places, byte and text records, the first 2 reads of size 1 or 2; records around and above the read buffer's 8 KiB with 4 arbitrary bytes.",
  over=("inputs", "schedules"))
P("P04", "Tag, occurrence and quantified field selection picks exactly the denoted fields",
  "A tag pattern (characters, dots, classes and ranges) and an occurrence pattern (none, any, exact, range) are accepted exactly when well-formed, and match exactly the tags and occurrences they denote; no occurrence and the occurrence 00 are the same. A field matcher holds if some selected field satisfies its condition, or, with ALL, if every selected field does.",
  "all pattern texts, all tags and occurrences, all records",
  "The tests match a fixed list of patterns against a fixed list of tags; the pattern language and the tags span a space they do not sample at its edges (class bounds, mixed digits and letters, empty selections).",
  ["src/matcher/tag.rs", "src/matcher/occurrence.rs", "src/matcher/field", "src/matcher/quantifier.rs"],
  [("tag patterns", "src/matcher/tag.rs"), ("occurrence patterns", "src/matcher/occurrence.rs"), ("quantifiers over fields", "src/matcher/field/mod.rs")],
  "pattern texts of up to 6 (tags) and 8 (occurrences) arbitrary ASCII characters; a class of up to 3 arbitrary characters in each place of a tag pattern, against all tags; against all occurrences of two or three digits (a range only against occurrences of its own length); three tag and six occurrence patterns in four notations with and without ANY and ALL on records of 2 or 3 fields with arbitrary tags, occurrences, codes and value bytes.")
P("P05", "Subfield predicates decide exactly the relation they denote",
  "Equality, prefix, suffix, membership, containment, similarity and matching of regular expressions, each with its negation where it has one, hold for a subfield value exactly when the relation does, under ANY for some and under ALL for every value of the selected codes. When case is ignored, both sides are compared in lower case, for all of Unicode. Counts of fields and subfields compare as numbers, and existence holds exactly when a selected subfield is there.",
  "all values, all comparison literals, all operators, quantifiers and code lists",
  "Each operator has a few examples in the tests; ties between lengths, empty values and literals, letters that change length when lowered and empty selections are not sampled.",
  ["src/matcher/subfield", "src/matcher/operator.rs", "src/matcher/quantifier.rs", "src/matcher/options.rs"],
  [("relations", "src/matcher/subfield/mod.rs"), ("membership", "src/matcher/subfield/mod.rs"), ("counts", "src/matcher/subfield/mod.rs"), ("operators", "src/matcher/operator.rs")],
  "two subfields of arbitrary code and value of up to 2 (containment: 3) arbitrary bytes (ASCII when case is ignored, plus nine non-ASCII letters of special lower case); literals of up to 2 printable characters; similarity over all strings of up to 3 letters of {a, A, b} with the default threshold; counts of up to 3 against all one-digit numbers; sixteen regular expressions (literals, classes, repetitions, alternatives, anchors, flags), alone and four sets of two, against what they denote. Outside: other regular expressions.")
P("P06", "Boolean expressions mean what their precedence, grouping and negation say",
  "A filter expression of any nesting evaluates as its operators say: negation binds tightest, then AND, XOR and OR, groups come first, and white space is free. Combining matchers with operators or through the builder is the same as combining their values, the printed form of a matcher is accepted and means the same, and what was parsed before never changes what a text means.",
  "all expressions up to the stated size over all truth values of their operands, all sequences of earlier parses",
  "The tests evaluate single expressions on single records; precedence and grouping are statements about all operator combinations and all truth assignments, and parser state across parses is never exercised.",
  ["src/matcher/record.rs", "src/matcher/builder.rs", "src/matcher/subfield", "src/matcher/operator.rs", "src/parser.rs"],
  [("operator precedence", "src/matcher/record.rs"), ("subfield expressions", "src/matcher/subfield/mod.rs"), ("builder", "src/matcher/builder.rs")],
  "all lists of up to 3 operands of up to six kinds (a leaf, negated, grouped, negated groups, nested groups) and of 4 plain operands, joined by all combinations of operators and both spellings, at record and at subfield level, with three ways of white space, over all truth values; nesting up to 3 groups; up to 50 earlier parses of five broken texts; thirteen ways of combining two matchers.",
  over=("inputs", "histories"))
P("P07", "Parsing never fails oddly: total, repeatable, and inverse to printing",
  "Parsing a tag, occurrence, subfield or record matcher, path, query or format terminates with a result or an error for every text, and with the same one whatever was parsed before. The printed form of what was accepted is accepted and prints the same, quoted strings denote exactly the text that their escapes say, and numbers that do not fit are rejected.",
  "all texts, all sequences of earlier parses",
  "The tests parse well-formed and a few broken examples; totality, printing and independence of history are about all texts and all orders.",
  ["src/parser.rs", "src/path.rs", "src/query.rs", "src/fmt/parser.rs", "src/fmt/mod.rs", "src/matcher"],
  [("quoted strings and escapes", "src/parser.rs"), ("paths", "src/path.rs"), ("queries", "src/query.rs"), ("formats", "src/fmt/parser.rs"), ("nesting limits", "src/matcher/record.rs")],
  "all ASCII texts of up to 3 (two kinds: 4) characters; 41 longer texts of the seven kinds with any 2 adjacent characters replaced by any ASCII characters, any character inserted, any two-byte character inserted; quoted strings of up to 4 characters; numbers around the limits of 64 bits; the deepest accepted nesting after texts with a broken character, and one level more.",
  over=("inputs", "histories"))
P("P08", "Editing a record keeps exactly the selected fields, in every view of it",
  "Keeping, discarding and retaining fields leaves exactly the selected fields of a record, in their order and unchanged. After that, what is written, compared and hashed is the edited record, never the bytes it was read from, and a record without fields writes nothing.",
  "all records, all selections, all edit sequences up to the stated length",
  "The tests edit one record with one or two selections and look at one view; that every later view agrees is about all records and edits.",
  ["src/record.rs", "src/primitives/record.rs"],
  [("keep, discard and retain", "src/record.rs"), ("dropping the raw bytes", "src/record.rs")],
  "records of up to 3 fields with arbitrary tags and occurrences out of those the selections distinguish; pairs of up to seven selections; keep, discard, retain, keep followed by discard, and editing through the underlying record.",
  over=("inputs", "histories"))
P("P09", "A path yields exactly the selected values in record order",
  "Looking up a path in a record gives the values of the selected subfields of those fields that tag, occurrence and condition select, in the order in which they stand in the record, and the first of them is the first one. The identifier of a record is the first value of subfield 0 of field 003@. Byte and text records agree.",
  "all records, all paths of the stated forms",
  "The tests look up a few paths in one record; order, repetition and conditions on other subfields of the same field vary with the record.",
  ["src/path.rs", "src/record.rs"],
  [("path lookup", "src/path.rs")],
  "eleven paths (code lists, wildcards, groups, conditions, both notations) on records of up to 2 fields with up to 3 subfields; tags, occurrences, the first code and the first value (of up to 3 bytes) arbitrary, the others from small sets; identifiers: up to 3 fields of up to 2 subfields.")
P("P10", "Queries give the cross product of their fragments' rows",
  "The rows of a query are the cross product of the rows of its fragments in order, and the rows of a path are, for each selected field, the cross product of the values of its groups, with an empty value where there is none. Squashing joins the values of a group within a field, merging joins the rows of a path, both with the separator, and a query's printed form is the same query.",
  "all records, all queries of the stated forms, with and without squash and merge",
  "The tests run some queries on one record; the number and order of rows depends on repeated and missing subfields in all combinations.",
  ["src/query.rs"],
  [("rows of a path", "src/query.rs"), ("cross product", "src/query.rs")],
  "queries of up to two paths (out of eleven) and a literal, on records of up to 2 fields with up to 3 subfields of arbitrary first code and value and others from small sets, all combinations of squash and merge, two separators.")
P("P11", "Formats render exactly the selected subfields with prefix, suffix and modifiers",
  "A format gives, for each field that its tag, occurrence and condition select, the rendered text, and nothing for fields that render empty. Within it, subfields are taken in order up to the bound, each with prefix and suffix; <*> joins what is there and <$> stops at the first part that is missing; modifiers change case, spaces, surrounding white space and the overread character of what they apply to. A format as part of a query gives the same values.",
  "all records, all formats of the stated forms, with and without the overread option",
  "The tests render one format on one record at a time; missing and repeated subfields, empty values and nested modifiers combine in ways they do not sample.",
  ["src/fmt/mod.rs", "src/fmt/parser.rs", "src/query.rs"],
  [("rendering", "src/fmt/mod.rs"), ("modifiers", "src/fmt/mod.rs")],
  "sixteen formats under four conditions on records of up to 2 fields with up to 3 subfields of codes a to d; the first value up to 2 arbitrary ASCII bytes, the others 1. A bound after a group is accepted but has no effect, and is not decided.")
sel = [C + "utils.rs", C + "cli.rs"]
P("P12", "filter writes exactly the matching records, in order and unchanged",
  "filter writes, in input order and byte for byte, exactly those records that satisfy the expression (or do not, with --invert-match) combined with --and, --or and --not, and that the allow and deny lists admit, at most --limit many. With --keep and --discard it writes of these exactly the fields selected. Where output goes (stdout, --output, --append, --tee) and where the expression and the input come from makes no difference, and an invalid line without --skip-invalid ends it with an error.",
  "all inputs, options in the listed combinations",
  "The tests run filter on a few files with fixed options and compare with stored output; which records are written depends on all combinations of record contents, invalid lines and options.",
  [C + "commands/filter.rs", C + "utils.rs", "src/reader.rs", "src/writer.rs"],
  [("main loop", C + "commands/filter.rs"), ("filter lists", C + "utils.rs")],
  "up to 3 lines, " + LINES + "; records with up to 2 fields 012A of up to 2 subfields with arbitrary values of one byte, codes, occurrences and PPNs from small sets; five expressions, 27 combinations of options. " + RUN, stand=CLI)
P("P13", "slice writes exactly the records at the selected positions",
  "slice writes the records whose positions among the selected valid records lie in the half-open interval that --start with --length or --end gives, in order and unchanged; invalid lines that are skipped do not count, and a huge length means all. The other options (filter, lists, limit, append) restrict this as they do for other commands.",
  "all inputs, all intervals",
  "The tests use a few intervals on clean files; off-by-one errors show at interval ends, with skipped lines and records that are filtered out.",
  [C + "commands/slice.rs", C + "utils.rs"],
  [("interval and counting", C + "commands/slice.rs")],
  "3 lines, " + LINES + "; starts 0 and 1, lengths 1, 2 and none; nine combinations of options; records as for P12. " + RUN, stand=CLI)
P("P14", "split, partition and concat lose no record, duplicate none and keep the order",
  "split writes the selected records in order to consecutively numbered files of the chunk size, with the rest in the last. partition writes each record to the file of every distinct value the path selects in it, once per value. concat writes all records in order, with --unique only the first one with each identifier (leaving out records without one) or with each content, and tee and append outputs have the same contents.",
  "all inputs, all chunk sizes, all assignments of values to records",
  "The tests split and partition a small dump; boundary chunk sizes, repeated and missing values, duplicates across files and skipped lines in all positions are not sampled.",
  [C + "commands/split.rs", C + "commands/partition.rs", C + "commands/concat.rs", "src/writer.rs"],
  [("chunk counting", C + "commands/split.rs"), ("writers per value", C + "commands/partition.rs"), ("unique records", C + "commands/concat.rs")],
  "up to 3 lines, " + LINES + "; chunk sizes 1 to 3; values of the path from a set of three; six (split), five (partition) and six (concat) combinations of options; records as for P12. Partitioning by values that are not file names is not decided. " + RUN, stand=CLI)
P("P15", "invalid reports exactly the lines that are not records",
  "invalid writes exactly those input lines that are not well-formed records, byte for byte and in order. Together with what the other commands accept with --skip-invalid they make up the input: no line is lost and none is both.",
  "all byte streams",
  "The tests run it on one file; completeness over all possible lines, with bytes that are not UTF-8 and an unterminated last line, is not sampled.",
  [C + "commands/invalid.rs", "src/reader.rs"],
  [("reporting lines", C + "commands/invalid.rs")],
  "up to 3 lines, " + LINES + "; a record between up to 4 arbitrary bytes before and up to 3 after it. " + RUN, stand=CLI)
P("P16", "sample draws a fair sample of the requested size without repetition",
  "sample writes as many of the selected records as requested, or all of them in order if there are fewer, each of them one of the input and none twice. The random numbers it draws allow each choice of records the same chance.",
  "all inputs, all outcomes of all draws",
  "The tests fix a seed and compare with stored output; which outcomes are possible, and how likely, cannot be seen in one of them.",
  [C + "commands/sample.rs"],
  [("reservoir sampling", C + "commands/sample.rs")],
  "sample sizes 1 and 2 of up to 4 lines, " + LINES + ", with and without a filter, every outcome of every draw; fairness as divisibility of the number of equally likely outcomes by the number of samples. " + RUN, stand=CLI + [RAND],
  over=("inputs", "schedules"))
P("P17", "count reports the exact numbers of records, fields and subfields",
  "count reports the numbers of selected records and of the fields and subfields in them, in the chosen format (lines, CSV, TSV, single numbers) and to the chosen place. Skipped lines and records that are filtered out do not count.",
  "all inputs, options in the listed combinations",
  "The tests count one dump; counts over all mixes of skipped, filtered and counted records are not sampled.",
  [C + "commands/count.rs", C + "utils.rs"],
  [("counters", C + "commands/count.rs")],
  "2 lines, " + LINES + "; nine output options, " + SELECT + "; input from one file, two files or stdin; records of up to 3 fields with up to 2 subfields. " + RUN, stand=CLI)
P("P18", "frequency counts each distinct row exactly and ranks them",
  "frequency counts how often each distinct row of the query occurs over the selected records (with --unique once per record), leaves out rows that are empty throughout, and writes them by descending count (ascending with --reverse) and then by value. The threshold removes rows below it in either order, the limit keeps the first ones after that, and headers, separators and quoting are those of CSV or TSV.",
  "all inputs, options in the listed combinations",
  "The tests count values of one dump; ties, thresholds at the boundary, repeated values within a record and values that need quotes combine in ways they do not sample.",
  [C + "commands/frequency.rs"],
  [("counting and ranking", C + "commands/frequency.rs")],
  "2 lines, " + LINES + "; two queries, twelve output options, " + SELECT + "; values from small sets, or a single arbitrary byte in a single record; both iteration orders of the hash table. " + RUN, stand=CLI)
P("P19", "select writes exactly the rows of the query, in order",
  "select writes for each selected record the rows of the query in order, without rows that are empty throughout, with --no-empty-columns without rows that have an empty column, with --unique each distinct row once. Headers, separators and quoting are those of CSV or TSV, and --squash and --merge join values as they do in the library.",
  "all inputs, options in the listed combinations",
  "The tests compare stored output of a dump; quoting, empty columns and repeated rows depend on values in all combinations.",
  [C + "commands/select.rs", "src/query.rs"],
  [("rows to CSV", C + "commands/select.rs")],
  "2 lines, " + LINES + "; six queries, nine output options, " + SELECT + "; values from small sets (with a comma), or a single arbitrary byte in a single record; --unique on enumerated values (its hash is not encoded symbolically). " + RUN, stand=CLI)
P("P20", "print shows every field of every selected record",
  "print writes each selected record as one line per field (tag, occurrence, and each subfield's code and value) followed by an empty line. Every value appears, also where it is not valid UTF-8, with the invalid bytes replaced.",
  "all inputs, options in the listed combinations",
  "The tests print one dump; values with arbitrary bytes are not among them.",
  [C + "commands/print.rs"],
  [("rendering of fields", C + "commands/print.rs")],
  "2 lines, " + LINES + "; " + SELECT + "; eight shapes of records, one of them with an arbitrary byte as value; without colors. " + RUN, stand=CLI)
P("P21", "convert keeps every record and escapes every value for its format",
  "convert writes every valid record with all its fields, occurrences, subfields and values in order in the target format (plus, binary, import, plain, json, xml), with every value escaped as that format requires. Bytes that are not valid UTF-8 are kept in the binary formats and replaced in JSON and XML.",
  "all inputs, all six formats",
  "The tests convert one dump; characters that a format must escape and bytes that are not UTF-8 are not in it.",
  [C + "commands/convert"],
  [("writers of the formats", C + "commands/convert/")],
  "1 record with an arbitrary byte as value, 2 lines of other shapes, " + LINES + "; input from one file, two files or stdin; reading PICA+ only. " + RUN, stand=CLI)
P("P22", "describe counts every subfield of every kept field",
  "describe writes a table of one row per tag and one column per subfield code, both sorted, with the exact numbers of occurrences in the selected records, after --keep and --discard. No tag and no code that occurs is missing, and none is there that does not occur.",
  "all inputs, options in the listed combinations",
  "The tests describe one dump.",
  [C + "commands/describe.rs"],
  [("table of counts", C + "commands/describe.rs")],
  "2 lines, " + LINES + "; five output options, " + SELECT + "; eight shapes of records; both iteration orders of the hash table. " + RUN, stand=CLI)
P("P23", "hash writes the SHA-256 of every selected record",
  "hash writes one row per selected record in order: its identifier (empty if it has none) and the SHA-256 of its bytes in hexadecimal. The digest depends on the record alone, not on the lines around it.",
  "all inputs, options in the listed combinations",
  "The tests hash two dumps; that state never carries over from one record to the next, or from skipped lines, is not sampled.",
  [C + "commands/hash.rs"],
  [("hashing records", C + "commands/hash.rs")],
  "2 lines out of enumerated ones (the hash of arbitrary bytes is not encoded), among them lines that are not records and records of one and two SHA blocks; three output options, " + SELECT + ". " + RUN, stand=CLI)
P("P24", "explode repeats the upper levels and loses no lower level",
  "explode writes one record per main, local or copy level, which consists of the fields of that unit and of the levels above it, in order. Each local block and each copy of the input appears exactly once, filter, lists and limit apply to the records that are written, and --keep and --discard to their fields.",
  "all inputs whose local blocks, except the last, have a copy",
  "The tests explode one record; the number and order of blocks and copies and their occurrences vary freely.",
  [C + "commands/explode.rs"],
  [("splitting into levels", C + "commands/explode.rs")],
  "one record of up to 2 local blocks of up to 3 fields and up to 3 copy fields each, with all assignments of occurrences (none, 01, 02); two lines with simpler records or lines that are not records; seven combinations of options. Consecutive copy fields of equal occurrence belong to one copy. " + RUN, stand=CLI)
P("P25", "check reports exactly the records that violate a rule, in a fixed order",
  "check reports for each selected record exactly the rules of the rule sets that find something in it, with identifier, rule, level and message, in the order of records and of rule names. Scopes, fast termination, --rule and --tags restrict which rules apply, and a link rule reports exactly the source values that no target record has. The output format follows the file name, and the result does not depend on the order of hash tables.",
  "all inputs, rule sets of the listed forms, both hash orders",
  "The tests run single rules on a small dump; several rules, scopes, selection of rules and links between records in any order are not sampled together.",
  [C + "commands/check/mod.rs", C + "commands/check/set.rs", C + "commands/check/rule.rs", C + "commands/check/checks/link.rs", C + "commands/check/checks/filter.rs", C + "commands/check/writer/mod.rs"],
  [("rule sets", C + "commands/check/set.rs"), ("links", C + "commands/check/checks/link.rs"), ("output", C + "commands/check/writer/mod.rs")],
  "four rule sets of filter, allow and link rules on 2 lines, " + LINES + "; eight combinations of options; values from small sets. " + RUN, stand=CLI)
P("P26", "Each kind of check reports exactly the values that violate it",
  "allow reports the values that are not in its list, duplicates the rows that occur as often as the threshold in a record, datetime the values that are not dates, isni the values that are not an ISNI with the right check digit, iso639-2b and jelc the values that are not in their code lists, and unicode the records with invalid UTF-8 and the values that are not in the required normalization form. Every violating value appears in the message, and no other.",
  "all values",
  "The tests try a few values per kind; check digits, calendar dates and code lists are about all values.",
  [C + "commands/check/checks"],
  [("kinds of checks", C + "commands/check/checks/")],
  "allow: up to 2 values of up to 2 arbitrary bytes; duplicates: up to 3 fields, thresholds 1 to 3; datetime: three templates with any 2 adjacent characters out of digits and separators, where the result has digits and separators in place; isni: three templates with any one character replaced; unicode: up to 4 arbitrary bytes; with each form any character of U+0080 to U+07FF that Unicode 15 assigns, alone and after one of 16 characters; codes: up to 3 arbitrary ASCII bytes (the code lists are those of the tree this was written for). " + RUN, stand=CLI)
P("P27", "Invalid lines are skipped alike by all commands, or else end them",
  "With --skip-invalid, or when the configuration says so, each command produces exactly what it would for the valid lines alone, in all its outputs. Without it, an invalid line makes it fail, and input without one does not.",
  "all inputs, all commands",
  "The tests run a few commands on one file with invalid lines; where the invalid lines stand among the others matters for counters and state, and is not varied.",
  ["src/error.rs", "src/reader.rs", C + "config.rs", C + "commands"],
  [("skipping errors", "src/error.rs"), ("configuration", C + "config.rs")],
  "twenty command lines covering 16 commands, 2 lines, " + LINES + ". " + RUN, stand=CLI + [RAND])
P("P28", "Input may come from anywhere and output may be compressed, to the same effect",
  "Each command produces the same whether its input is one file, several files, standard input, a mix of these or gzip-compressed, and an unterminated last line is not a record. Output that is written compressed (by name or option) decompresses to what is written otherwise, for every output a command has.",
  "all inputs, all ways of dividing them, all commands",
  "The tests feed each command one way, mostly from a single file; state that is reset or lost between files shows only when files are divided at the critical place.",
  ["src/reader.rs", "src/writer.rs", C + "commands"],
  [("opening inputs", "src/reader.rs"), ("opening outputs", "src/writer.rs")],
  "21 command lines covering 17 commands, 2 lines (compressed: enumerated bytes), " + LINES + ", divided at any place. " + RUN, stand=CLI + [RAND])
P("P29", "The configuration is kept across runs and only valid settings change it",
  "config returns for each option the value that was set last, by whichever form of the command and in whichever run, or the default after it was unset. Setting one option leaves the other alone. An unknown option or an invalid value makes the command fail and changes nothing. A configuration that does not have all options is completed by the defaults; one that is malformed makes every command fail, and is not overwritten. The commands that follow obey the configuration.",
  "all histories of settings, all values",
  "The tests set and read one option once in a fresh configuration; histories of several runs, and values that are nearly valid, are not sampled.",
  [C + "commands/config.rs", C + "config.rs", C + "translit.rs", C + "main.rs"],
  [("config command", C + "commands/config.rs"), ("loading and saving", C + "config.rs")],
  "all histories of 2 (thorough: 3) steps out of 7 kinds, both options read after each; values of up to 5 arbitrary ASCII characters (not starting with -). Configuration files with each option present or not, in both orders, and 1 arbitrary byte put in at any place. Only the configuration named by -c, not the one in the user's home directory. " + RUN, over=("inputs", "histories"), stand=CLI)
P("P30", "Expressions, queries and rule sets are normalized as configured",
  "When a Unicode normalization form is configured, every command that takes a filter expression (as argument, --where, --and, --or or --not), a query or a rule set behaves as if it had been written in that form, and otherwise takes it as written. The form of the data is never changed.",
  "all values, all commands, all forms",
  "The tests try two commands with one form; the literal is passed through at a dozen places, each of which can lose it.",
  [C + "translit.rs", C + "cli.rs", C + "commands"],
  [("transliteration", C + "translit.rs"), ("filter options", C + "cli.rs")],
  "eighteen command lines covering 15 commands, all forms and none, four literals (composed, decomposed, compatibility, singleton), values of 2 or 3 arbitrary bytes. Of unicode-normalization only these literals. " + RUN, stand=CLI + [RAND])
P("P31", "A command that could not read or write everything fails",
  "When reading an input or writing an output fails, the command ends with an error code. It never ends with success after reading less than its inputs or writing less than its outputs; a call that is interrupted or does part of what was asked for is continued, and then the result is the same as without.",
  "all commands, all inputs, all places at which a read or write fails, is interrupted or is short",
  "No test makes a read or write fail. Whether an error is lost depends on which call it occurs in: one buffered writer that is dropped instead of flushed, one finish whose result is ignored.",
  ["src/reader.rs", "src/writer.rs", C + "commands", C + "main.rs"],
  [("opening outputs", "src/writer.rs"), ("commands", C + "commands"), ("exit status", C + "main.rs")],
  "53 command lines covering all commands and kinds of output (plain, compressed, appended, standard output, tee, several files), one line of input, " + LINES + "; any one read or write call of the run is interrupted, does less than asked for, or fails (and so do all later ones on that descriptor). Opening files does not fail. Compressed output may give up when interrupted. " + RUN, over=("inputs", "fault_sequences"), stand=["files, standard input and output are an in-memory file system, in which any one call fails", HASH, POLARS, BAR, RAND])
P("P32", "Selecting records means the same in every command",
  "Every command that selects records (filter, slice, split, partition, count, frequency, select, explode, print, describe, hash, sample, check) treats --where with --and, --or, --not, --ignore-case, --strsim-threshold, --limit, the allow and deny lists and their column and source options alike: its result is that of the same command without them on the records they select, in order, and at most as many as the limit.",
  "all inputs, all commands, all selection options",
  "Every command parses and passes on the selection options by itself; the tests try most options in one or two commands.",
  [C + "cli.rs", C + "utils.rs", C + "commands"],
  [("filter options", C + "cli.rs"), ("allow and deny lists", C + "utils.rs"), ("commands", C + "commands")],
  "thirteen commands times thirteen combinations of options, two lines of which the second may repeat the first, and one line of up to two fields of up to two subfields; " + LINES + "; sets of values where the distance of strings matters are fixed. " + RUN, over=("inputs", "configurations"), stand=CLI + [RAND])
P("P33", "Output goes where it is told to, and only there",
  "What a command writes to the file given with -o (or --output, with --progress or not) is what it writes to standard output without, replaces what was in the file, and leaves standard output empty; with --append what was there is kept in front; with --tee both get it. split and partition write the same files whatever the directory (which is made when missing) and the template are. If the file cannot be created, the command fails.",
  "all inputs, all commands, all output options",
  "The tests compare one fixed output per option and command; whether old contents are truncated, kept or mixed depends on the length of both.",
  ["src/writer.rs", C + "commands"],
  [("opening outputs", "src/writer.rs"), ("commands", C + "commands")],
  "24 command lines times ten output options (two of them compressed, over old contents longer and shorter), and two commands times five directories and templates; two lines of which the second may repeat the first; " + LINES + "; 300 bytes of old contents. " + RUN, over=("inputs", "configurations"), stand=CLI + [RAND])
P("P34", "Whatever the input, a command ends with success or an error, never a crash",
  "On any input bytes, any argument value, any filter expression file and any rule set every command ends with exit code 0 or 2: it neither panics nor aborts nor hangs. With --skip-invalid no input makes it fail.",
  "all byte strings as records, arguments, expression files and parts of rule sets",
  "A crash needs the one byte at the one place where an index, an unwrap or an allocation relies on what nothing guarantees.",
  ["src", C + "commands", C + "utils.rs"],
  [("parsers", "src"), ("commands", C + "commands")],
  "22 command lines, with up to three arbitrary bytes in front of a record or two over it at four places; 46 argument positions, with up to three characters (of ASCII), twelve of them numbers at the limit of the type; expression files of up to three bytes, alone and behind a path; six rule sets with one arbitrary byte put in at any place. An allocation of 64 GB or more fails. " + RUN, over=("inputs", "configurations"), stand=CLI + [RAND])
# the same with much around
BULK = {
    "P01": "Up to 4 arbitrary bytes in records of 299 subfields or fields, 2 in ones of 2000, or a value of 70 000 bytes.",
    "P03": "Streams of 254, 299 and 1023 lines with 2 arbitrary bytes near the end.",
    "P04": "Field matchers also with 299 further fields.",
    "P05": "Relations, membership and existence also with 299 further subfields; counts of 299 to 301 against all three-digit numbers.",
    "P08": "Also with 299 further fields.",
    "P09": "Also with 299 further fields or subfields.",
    "P10": "Also with 299 further fields or subfields.",
    "P11": "Also with 299 further fields or subfields.",
    "P12": "*", "P13": "Also with 299 further records in front, and around a value of 70 000 bytes.", "P14": "*", "P15": "*", "P17": "*", "P18": "*", "P19": "*", "P20": "*", "P21": "*", "P22": "*", "P23": "*",
    "P24": "Also with 299 further local blocks of two copies.",
    "P25": "Rule sets alone and up to three at once. Also with 299 further fields, subfields of a field or records, and a value of 70 000 bytes.",
    "P27": "Also with 299 records in front.",
    "P28": "Also with 299 records in front and a value of 70 000 bytes.",
    "P31": "Also with 299 records in front and a value of 70 000 bytes.",
    "P32": "Also with 299 records in front.",
    "P33": "Also with a value of 70 000 bytes.",
}
for m in META:
    b = BULK.get(m["id"])
    if b: m["bounds"] = m["bounds"].replace(RUN, "").rstrip() + " " + ("Also with 299 further fields, subfields of a field or records in front, and a value of 70 000 bytes." if b == "*" else b) + (" " + RUN if RUN in m["bounds"] else "")
BOUNDS = {m["id"]: m["bounds"] for m in META}
STAND = {m["id"]: m["stand"] for m in META}
