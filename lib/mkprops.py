import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if hook: a["hook_needed"]=hook
    if state: a["state"]=[{"name":s} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
# ---- line endings
p("L01","Line ending normalization is exact and memory safe",
 "`line_ending::normalize()` returns its input with every `\\r\\n` replaced by `\\n` and every other byte (lone `\\r` included) unchanged and in order, as valid UTF-8 and without undefined behaviour. `normalize_ref()` returns the same text, and borrows its input exactly when it contains no `\\r\\n`.",
 ["inputs"],"every string, of any length, with any mix of `\\n`, `\\r`, `\\r\\n` and multi-byte characters",
 "The unit tests normalize four short strings; the in-place unsafe buffer surgery depends on where in the buffer each `\\r\\n` lies and how many came before it.",
 ["crates/line_ending/src/lib.rs"],[("in-place gap removal with set_len/from_utf8_unchecked","crates/line_ending/src/lib.rs normalize")],
 "return values of normalize()/normalize_ref(); ASan and Miri on their buffers")
p("L02","Auto line ending is the first line ending of the file",
 "With `line-ending = \"auto\"` the line ending of a file is that of its first line: `\\r\\n` if the first `\\n` of the source is preceded by `\\r`, and `\\n` otherwise, a source without any line ending included. The values `lf`, `crlf` and `native` give the same line ending for every source.",
 ["inputs"],"every source text and every value of `line-ending`",
 "Tests infer the line ending of four uniform strings; mixed files, late line endings and lone `\\r` are not sampled.",
 ["crates/line_ending/src/lib.rs","crates/workspace/src/settings/line_ending.rs"],[("infer","crates/line_ending/src/lib.rs infer"),("finalize","crates/workspace/src/settings/line_ending.rs LineEnding::finalize")],
 "return values of line_ending::infer() and of the workspace LineEnding::finalize()")
# ---- settings
p("S01","Numeric format options accept exactly their documented range",
 "`LineWidth` is constructible from exactly the integers 1..=320 and `IndentWidth` from exactly 1..=24, by every route (TryFrom of each integer type, deserialization), with the default 80 resp. 2. An accepted value reads back unchanged through value(), Display, Into and serialization; a rejected one is an error that names the offending value, never a panic or a wrapped or clamped value.",
 ["inputs"],"every integer of every accepted source type, in Rust values, JSON and TOML",
 "Tests try two values; wrap-around in the usize to u8 route or an off-by-one at either bound shows at single values only.",
 ["crates/settings/src/line_width.rs","crates/settings/src/indent_width.rs"],[("TryFrom and Deserialize","crates/settings/src/line_width.rs, crates/settings/src/indent_width.rs")],
 "results of every constructor and reader, over the whole of u8/u16 and sampled usize/i64")
p("S02","Name lists contain exactly the names they were given",
 "For `skip`, `table` and the merged table list, `contains(name)` is true exactly if `name` (byte for byte, case-sensitively) is one of the names it was built from, whatever their number, order and duplicates; `merge` contains exactly the union. Lists built from permutations of the same names are equal and display the same, comma separated and sorted.",
 ["inputs","histories"],"every list of strings, every queried name, every sequence of merges",
 "Tests build one- and two-element lists that are already sorted; binary search over a wrongly ordered list answers right for most queries.",
 ["crates/settings/src/sorted_strings.rs","crates/settings/src/skip.rs","crates/settings/src/table.rs"],[("binary search over sorted storage","crates/settings/src/sorted_strings.rs"),("merge","crates/settings/src/table.rs Table::merge")],
 "contains()/as_slice()/merge()/Display results")
p("S03","Enumerated options round-trip through every textual form",
 "`IndentStyle`, `AssignmentStyle`, `PersistentLineBreaks` and the `LineEnding` option accept exactly their documented spellings and reject every other string with an error; serializing and deserializing, and `FromStr` against the serialized form, return the same value. Each value's predicates (`is_tab`, `is_respect`, ...) hold for that value only.",
 ["inputs"],"every string and every value of each option",
 "No test of these forms runs without the unavailable formatter crate; wrong spellings near the right ones are not sampled.",
 ["crates/settings/src/indent_style.rs","crates/settings/src/assignment_style.rs","crates/settings/src/persistent_line_breaks.rs","crates/workspace/src/settings/line_ending.rs"],[("FromStr, serde, predicates","crates/settings/src")],
 "results of parse, serialize, deserialize and predicates")
# ---- comments
p("D01","Comment directives are recognized exactly",
 "A comment is the directive `fmt: skip`, `fmt: skip file` or `fmt: table` exactly if it consists of one or more `#`, optional whitespace, `fmt:`, optional whitespace, the literal words, and optional trailing whitespace; everything else, including text that is no comment, is no directive. A comment is the special skip-file marker exactly if, after its `#`s and whitespace, its text starts with `Generated by`.",
 ["inputs"],"every string, including multi-byte whitespace, repeated `#` and near misses",
 "About twenty literal comments are tested; the grammar is infinite and a mistake in either direction silently reformats, or silently stops formatting, user code.",
 ["crates/comments/src/directive.rs"],[("parse_comment_directive, parse_special_skip_file","crates/comments/src/directive.rs")],
 "returned Option<Directive>")
# ---- fs
p("F01","Path normalization is lexical, absolute and stable",
 "`normalize_path()` turns a relative path into the one below the current directory, removes `.` and resolves `..` lexically (never above the root), changes nothing else, and is idempotent; `relativize_path()` strips the current directory only when it is a whole-component prefix and otherwise displays the path unchanged.",
 ["inputs"],"every path: absolute, relative, with `.`, `..`, repeated separators, non-UTF-8 components, siblings sharing a name prefix with the current directory",
 "There are no tests of these functions.",
 ["crates/fs/src/lib.rs"],[("normalize_path, relativize_path","crates/fs/src/lib.rs")],"returned paths, with a controlled current directory")
p("F02","R files are recognized by extension .R or .r alone",
 "`has_r_extension()` and `is_r_extension()` hold exactly for paths whose last extension is `R` or `r`; a dotfile named `.R`, other spellings, a suffix without dot and non-UTF-8 extensions are not R files.",
 ["inputs"],"every path and every extension string","There are no tests of these functions.",
 ["crates/fs/src/lib.rs"],[("extension match","crates/fs/src/lib.rs")],"returned booleans")
# ---- workspace
p("W01","Settings resolve to the closest ancestor, after any history",
 "After any sequence of add, remove and clear, `PathResolver` holds exactly the last value added per path and not removed since, in sorted path order; add and remove return the value they displaced. `resolve(path)` returns the item with the most components among those that are a whole-component prefix of `path` (the fallback if there is none), and `matches(path)` exactly those items, outermost first.",
 ["histories","inputs"],"every history of operations over nested, sibling and prefix-sharing paths, and every queried path",
 "Tests use at most three paths and a fixed short history.",
 ["crates/workspace/src/resolve.rs"],[("binary search insertion","crates/workspace/src/resolve.rs add/remove"),("reverse scan","crates/workspace/src/resolve.rs resolve")],
 "results and items() after every operation",state=["PathResolver.items","PathResolver.fallback"])
p("W02","Exclude patterns follow gitignore semantics",
 "A path is matched by a user's `exclude` patterns exactly if gitignore rules, rooted at the directory of the air.toml, ignore it: anchored versus floating patterns, directory-only patterns, `*`, `?`, classes, `**`, comments, and negation where the last matching pattern wins. Asked about a path with its parents, the closest of the path and its parent directories (the root itself excluded) that any pattern applies to decides.",
 ["inputs","configurations"],"every pattern list and every path below the root, as file or directory",
 "Tests check some forty single-pattern cases and never two patterns together.",
 ["crates/workspace/src/file_patterns.rs","crates/workspace/src/settings/exclude_patterns.rs"],[("matched, matched_path_or_any_parents","crates/workspace/src/file_patterns.rs FilePatterns")],
 "Option<Glob> results against an independent matcher")
p("W03","Default includes and excludes are exactly the documented sets",
 "By default a path is excluded exactly if it is, or lies below, a directory named `.git`, `renv` or `revdep`, or is, or lies below, an entry named `cpp11.R`, `RcppExports.R`, `extendr-wrappers.R` or `import-standalone-*.R`, at any depth and under any root; it is included exactly if its name ends in `.R` or `.r`. Names that merely contain these do not count.",
 ["inputs"],"every relative or absolute path, as file or directory",
 "Tests sample a dozen paths.",
 ["crates/workspace/src/settings/default_exclude_patterns.rs","crates/workspace/src/settings/default_include_patterns.rs","crates/workspace/src/file_patterns.rs"],[("DefaultFilePatterns::matched_path_or_any_parents walk-up","crates/workspace/src/file_patterns.rs")],
 "Option<Glob> results against an independent predicate")
p("W04","Discovery finds each eligible file once, whatever the schedule",
 "`discover_r_file_paths` returns, for any files and directories given, exactly the R files (`.R`, `.r`) among them and below them that are not excluded, each once per argument that leads to it. A given path is excluded if it or a parent matches the exclude patterns or default excludes of the settings that govern it; an entry met on the way down if it itself does, with all below it. Entries that are hidden or ignored by git inside a repository are left out unless given themselves. `Exclude::Nothing` and `Include::Everything` lift exactly the excludes and the R file test. A given path that does not exist is one error, and keeps nothing else from being found. None of this depends on thread timing or on the order of the arguments.",
 ["schedules","inputs","configurations"],"every directory tree, argument list, settings hierarchy and walker thread schedule",
 "Tests walk small fixed trees once; a lost or duplicated path needs several walker threads and an unlucky interleaving or overlapping arguments.",
 ["crates/workspace/src/discovery.rs"],[("parallel visitor merge on drop","crates/workspace/src/discovery.rs FilesVisitor"),("exclude checks","crates/workspace/src/discovery.rs is_match")],
 "returned paths against an independent walk of the same tree; TSan on the walk")
p("W05","The nearest air.toml governs each file",
 "For any placement of configuration files and any arguments, `discover_settings` loads, for each argument, the configuration of the closest directory at or above it that has one, once however many arguments lead to it, and no other; in a directory, the file `air.toml` wins over `.air.toml`. Resolved over what was loaded, a path gets the settings of the closest directory at or above it, else the defaults. A reached configuration that cannot be read or is invalid is an error, which names the file if it cannot be read or parsed.",
 ["configurations","inputs"],"every placement of configuration files, and every set, order and overlap of argument paths",
 "Tests place one or two configuration files.",
 ["crates/workspace/src/discovery.rs","crates/workspace/src/toml.rs","crates/workspace/src/resolve.rs"],[("discover_settings seen set","crates/workspace/src/discovery.rs"),("find_air_toml_in_directory","crates/workspace/src/toml.rs")],
 "discovered settings and resolutions against an independent lookup on the same tree")
p("W06","air.toml parsing is total, strict and complete",
 "Any text is either accepted or rejected with an error (naming the file, if read from one), without panic. An accepted file yields settings, and format options handed to the formatter, in which each documented option present has its value and every absent one its documented default; unknown keys, wrong types, wrong words, out-of-range values and invalid exclude patterns are rejected.",
 ["inputs","configurations"],"every text, valid or not, and every combination of options",
 "Tests parse a handful of hand-written files.",
 ["crates/workspace/src/toml.rs","crates/workspace/src/toml_options.rs","crates/workspace/src/settings.rs"],[("TomlOptions::into_settings","crates/workspace/src/toml_options.rs")],
 "Settings produced against the generated option set")
# ---- aether
p("U01","Document edits reproduce the target text exactly",
 "For any two texts, the edits computed by `diff()`, and any built or united by hand, are disjoint, sorted and inside the first text, and applied to it give the second. Converted to LSP edits or document changes, under every position encoding and line ending, and applied as the protocol says, by a client or by `apply_text_edits()`, they give the same. Edits united are all made, equal insertions both, equal replacements once.",
 ["inputs"],"every pair of texts, multi-byte and multi-line included, each position encoding and line ending",
 "Tests diff a few ASCII lines.",
 ["crates/aether_lsp_utils/src/diff.rs","crates/aether_lsp_utils/src/text_edit.rs","crates/aether_lsp_utils/src/proto/to_proto.rs"],[("diff to indels","crates/aether_lsp_utils/src/diff.rs"),("apply","crates/aether_lsp_utils/src/text_edit.rs")],
 "edits, and the result of applying them with an independent client")
p("U02","Positions and offsets convert back and forth in every encoding",
 "For every character boundary of every text, converting the offset to an LSP position in UTF-8, UTF-16 or UTF-32 and back gives the same offset, and the position counts lines and code units as the protocol defines. A position on a line the document doesn't have is an error.",
 ["inputs"],"every text (astral and combining characters, no final newline, empty), every boundary, every encoding",
 "Tests are ASCII.",
 ["crates/aether_lsp_utils/src/proto/from_proto.rs","crates/aether_lsp_utils/src/proto/to_proto.rs"],[("offset, position","crates/aether_lsp_utils/src/proto")],
 "returned offsets and positions against an independent count")
p("U03","Incremental synchronization tracks the editor's buffer",
 "After any sequence of full and incremental content changes, the server's text equals the client's buffer with line endings normalized, and its line index describes that text; several changes in one notification apply in order, each against the result of the one before.",
 ["histories","inputs"],"every history of valid change notifications, insertions, deletions, multi-line and multi-byte changes, mixed line endings in inserted text",
 "Tests apply one or two changes.",
 ["crates/aether_lsp_utils/src/proto/from_proto.rs","crates/lsp/src/documents.rs"],[("lazy line index rebuild","crates/aether_lsp_utils/src/proto/from_proto.rs apply_text_changes")],
 "contents and line index after every notification against a reference buffer")
# ---- codec
p("P01","LSP framing is independent of how bytes arrive",
 "Any sequence of messages encoded by the codec decodes to the same messages in the same order, once each, however the byte stream is cut into chunks, optional headers and zero-length messages included. `Content-Length` is the byte length of the body.",
 ["inputs","schedules"],"every message sequence and every chunking of its encoding",
 "Tests decode two fixed messages, one chunking each.",
 ["crates/lsp_test/src/tower_lsp/codec.rs"],[("two-state decoder","crates/lsp_test/src/tower_lsp/codec.rs Decoder::decode")],
 "decoded sequence against the encoded one",state=["LanguageServerCodec.content_len"])
p("P02","The LSP codec survives malformed input and recovers",
 "No byte stream makes the codec panic, loop or return a message that was not framed in it. A message with an invalid body or an invalid header block gives an error, and every well-formed message that follows it is decoded.",
 ["inputs","fault_sequences"],"every byte stream; every insertion of malformed messages between well-formed ones, in every chunking",
 "One recovery case is tested.",
 ["crates/lsp_test/src/tower_lsp/codec.rs"],[("skip to next Content-Length","crates/lsp_test/src/tower_lsp/codec.rs")],
 "results of decode, buffer progress")
# ---- grammar tooling
p("G01","The grammar parser reads back every grammar it is shown",
 "Any grammar, printed in ungrammar notation with any layout, comments and token escapes, parses to exactly that grammar: the same nodes and tokens in order of first mention and the same rule structure. Any other text gives an error, at the line and column of the offending token, never a panic or an endless loop.",
 ["inputs","programs"],"every grammar and layout; every text",
 "One grammar file is parsed and its result not looked at.",
 ["crates/biome_ungrammar/src/parser.rs","crates/biome_ungrammar/src/lexer.rs"],[("recursive descent","crates/biome_ungrammar/src/parser.rs"),("locations","crates/biome_ungrammar/src/lexer.rs Location::advance")],
 "Grammar against the generating model; Display of errors")
p("Z01","The Zed extension names existing releases and unpacks to itself",
 "For every operating system, architecture and version, the asset name, archive type, download directory and binary path agree with the names under which releases are published: `air-<arch>-<triple>.<tar.gz|zip>`, a gzip tarball exactly outside Windows, and a binary path inside the version's own download directory.",
 ["configurations","inputs"],"every OS, architecture and version string",
 "Three combinations are tested.",
 ["editors/zed/src/lib.rs"],[("GithubReleaseDetails::new","editors/zed/src/lib.rs")],
 "the returned details")
p("Z02","The Zed extension runs the right binary and deletes only outdated ones",
 "The language server's command is, in this order, the path in the user's settings, `air` on the PATH, the binary of an earlier download if it still exists, or the one of the latest release, which is downloaded exactly if it is not there yet; the arguments are the user's, else `language-server`. After a download the extension's directory holds no other directory; in every other case, failures included, nothing in it is changed, and nothing outside it ever is.",
 ["histories","fault_sequences"],"every history of requests, releases, restarts, deleted binaries and failing host calls",
 "The extension's life cycle has no test; its host functions exist only inside Zed.",
 ["editors/zed/src/lib.rs"],[("AirExtension::language_server_binary","editors/zed/src/lib.rs")],
 "commands returned, host calls made and the directory tree before and after, with a scripted host")
# ---- build tasks
p("T01","Build tasks restore their surroundings and delete only their target",
 "Whatever the nesting of scopes that change the directory or an environment variable, closing one restores exactly what was there when it was opened, an unset variable included. Processes run in the current scope's directory with each quoted argument intact and return their trimmed output, and an unsuccessful one is an error; removing a path removes it and what lies below it, and nothing else.",
 ["histories","inputs"],"every nesting of scopes, argument list, input and directory layout",
 "xtask has no test of its helpers.",
 ["xtask/src/glue.rs"],[("Pushd/Pushenv guards and their stacks","xtask/src/glue.rs"),("shelx, run_process","xtask/src/glue.rs"),("rm_rf","xtask/src/glue.rs")],
 "environment and current directory after every step; output of processes; directory trees before and after")
# ---- formatter
p("R01","Formatting is idempotent",
 "Formatting the output of the formatter again, with the same settings, changes nothing: for every R file without syntax errors whose comments are in ordinary places (on lines of their own, at the ends of statements, of elements of lists and of operands) the second run reports it unchanged. A text is reported unchanged exactly if it is its own formatted text.",
 ["programs","configurations"],"every syntactically valid R program and every combination of settings",
 "Snapshot tests cover a fixed set of files under one or two settings.",
 ["crates/air_r_formatter/src","crates/workspace/src/format.rs"],[("format_source","crates/workspace/src/format.rs")],
 "formatted text of the first and the second run")
p("R02","Formatting preserves the program",
 "Apart from whitespace, line breaks, and the documented insertions (braces around bodies, assignment operator style), the formatted text has the same tokens in the same order, so that it parses without error to the same program.",
 ["programs","configurations"],"every syntactically valid R program and every combination of settings",
 "Snapshots record whatever the formatter did on fixed files.",
 ["crates/air_r_formatter/src"],[("node formatting rules","crates/air_r_formatter/src/r")],
 "token streams before and after, read by an independent lexer")
p("R03","No comment is lost, duplicated or reordered into code",
 "Every comment of the source appears exactly once in the formatted text, with its text unchanged up to trailing whitespace (comments at the ends of lines that become one line follow each other on it); comments in ordinary places stay between the same tokens.",
 ["programs","configurations"],"every syntactically valid R program with comments at any position the grammar allows",
 "Comment placement has a rule per construct; snapshots cover some positions only.",
 ["crates/air_r_formatter/src/comments.rs"],[("comment placement rules","crates/air_r_formatter/src/comments.rs")],
 "comment sequences before and after")
p("R04","Suppressed code is left exactly as written",
 "An expression suppressed by `# fmt: skip`, or by a call to a function in `skip`, is output verbatim (up to line ending conversion), and a file with `# fmt: skip file` or a generated-by marker at its top is output unchanged; the code around a suppressed expression is formatted as ever. Directives where they say nothing, behind a statement on its line, or for the file elsewhere than at its top, have no effect.",
 ["programs","configurations"],"every program with suppression directives or `skip` settings at any position",
 "Snapshots cover fixed positions.",
 ["crates/air_r_formatter/src/context.rs","crates/air_r_formatter/src/r/auxiliary/root.rs","crates/air_r_formatter/src/comments.rs"],[("is_suppressed, fmt_suppressed","crates/air_r_formatter/src")],
 "verbatim text of suppressed regions in the output")
p("R05","Output obeys the line ending and indentation settings",
 "Outside strings and suppressed code, every line of the output ends with the line ending of the settings and is indented by multiples of the indent width in spaces, or by tabs, as set; the file ends with exactly one line ending, unless it is empty.",
 ["programs","configurations"],"every program and every combination of line ending, indent style, indent width and line width",
 "Snapshots use a few settings.",
 ["crates/air_r_formatter/src/context.rs"],[("RFormatOptions","crates/air_r_formatter/src/context.rs")],
 "lines of the output")
p("R06","Parsing is lossless and reports every syntax error",
 "For every text, the parser terminates without panic and either yields a tree whose text is exactly the source, with every token and comment in its place, or reports an error; it reports an error exactly if the underlying tree-sitter tree has one.",
 ["programs","inputs"],"every text",
 "Snapshots parse fixed files.",
 ["crates/air_r_parser/src/parse.rs","crates/air_r_parser/src/treesitter.rs"],[("RWalk over the tree-sitter tree","crates/air_r_parser/src/parse.rs")],
 "tree text and errors")
p("R07","Formatting never panics and always ends",
 "Every syntactically valid program, however long or oddly laid out and nested to any ordinary depth, is formatted without panic and without exceeding the machine's stack.",
 ["programs","configurations"],"every valid program and every combination of settings",
 "Fixed files only.",
 ["crates/air_r_formatter/src"],[("format_node","crates/air_r_formatter/src/lib.rs")],
 "outcome of format_source")
p("R08","Blanks and indentation of the source do not matter",
 "Two programs that differ only in the blanks and tabs between tokens on a line, at the starts and at the ends of lines are formatted to the same text.",
 ["programs","configurations"],"every pair of programs that differ in blanks only",
 "Snapshots format each file once, as written.",
 ["crates/air_r_formatter/src"],[("trivia handling","crates/air_r_formatter/src/comments.rs"),("newline counting","crates/air_r_formatter/src/r")],
 "formatted texts of both programs")
p("R09","Braces are exactly where the documentation says",
 "In formatted text the bodies of loops are in braces; those of functions are if the function takes more than one line; and an if statement that takes more than one line, stands where its value is not used, has another part in braces, or is chained with another has them around all of its parts. A line break before a body, a part of an if statement or `else` in the source asks for braces, too. Functions and if statements that fit on a line as they are get none, and empty braces are `{}`. What is in other braces has lines of its own (but `{{ x }}` within arguments); a body's opening brace, and `else` behind a closing one, stay on the line of what is before.",
 ["programs","configurations"],"every valid program and every combination of settings",
 "Snapshots cover some combinations of nesting and line breaks.",
 ["crates/air_r_formatter/src/loop_body.rs","crates/air_r_formatter/src/r/auxiliary/if_statement.rs","crates/air_r_formatter/src/r/auxiliary/function_definition.rs"],[("autobracing","crates/air_r_formatter/src/r/auxiliary/if_statement.rs")],
 "syntax tree of the formatted text")
p("R10","Lines are broken exactly if they exceed the line width",
 "What is as long as the line width to the column stays on a line, at every width up to 320, nested and indented by tabs or spaces, and what is longer by one is broken. Argument and parameter lists are not left on a line that exceeds the line width, unless kept there by rule (calls within calls, test_that() calls, the parameters of inline functions); and a line width is of no influence on a program whose formatted lines are all within it: a narrower one gives the same text as long as it still holds the longest line.",
 ["programs","configurations"],"every valid program and every line width",
 "Snapshots use one or two widths.",
 ["crates/air_r_formatter/src/r/auxiliary/call_arguments.rs","crates/air_r_formatter/src/r/auxiliary/parameters.rs","crates/air_r_formatter/src/context.rs"],[("best fitting layouts","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs")],
 "widths of the formatted lines, and the text at other widths")
p("R11","Line breaks the author chose persist",
 "With persistent-line-breaks, a line break between the opening bracket and the first argument or parameter keeps each argument on a line of its own, and a line break after the first operator of a chain, or after an assignment, stays one. An empty line between two arguments of a call puts each on a line of its own, whatever the setting.",
 ["programs","configurations"],"every valid program with such line breaks",
 "Snapshots cover single constructs.",
 ["crates/air_r_formatter/src/r/auxiliary/call_arguments.rs","crates/air_r_formatter/src/r/auxiliary/parameters.rs","crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"],[("persistent line breaks","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs")],
 "line breaks in the formatted text, by construct")
p("R12","Table calls keep their rows and align their columns",
 "A call formatted as a table keeps its rows, each on one line; the commas of a column are aligned, numbers are aligned at the (implied) decimal point, everything else at the left, and no column is wider than its cells need; named arguments follow on lines of their own. Exactly the calls named by default-table and table, and those with a directive, are formatted so.",
 ["programs","configurations"],"every call with rows of unnamed arguments, jagged ones and holes included, comments between rows, and every combination of table settings",
 "Snapshots cover fixed tables.",
 ["crates/air_r_formatter/src/call_arguments_table.rs","crates/air_r_formatter/src/comments_ext.rs"],[("build_table, padding","crates/air_r_formatter/src/call_arguments_table.rs")],
 "columns of every cell and comma in the formatted table")
p("R13","The assignment style is applied throughout",
 "With assignment-style arrow no `=` assignment is left in the formatted text, with equal no `<-` where R takes `=` for an assignment, and with preserve both stay; where `=` would not be an assignment, or another one than `<-` was, none is written.",
 ["programs","configurations"],"every valid program with assignments anywhere",
 "Snapshots cover fixed places.",
 ["crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"],[("assignment operators","crates/air_r_formatter/src/r/auxiliary/binary_expression.rs")],
 "operators in the formatted text")
p("R14","Statements are formatted independently of each other",
 "Cutting a file between two lines that belong to different top-level statements and formatting both parts gives the two parts of the formatted file, up to blank lines at the cut (directives for whole files aside).",
 ["programs","configurations"],"every valid program and every cut between statements",
 "Snapshots format whole files.",
 ["crates/air_r_formatter/src/r/lists/expression_list.rs","crates/air_r_formatter/src/comments.rs"],[("expression lists","crates/air_r_formatter/src/r/lists/expression_list.rs")],
 "formatted texts of the parts and of the whole")
p("R15","Tokens on a line are one blank apart, or touch",
 "In formatted text there is one blank around operators, behind commas, between the parts of if, for, while, repeat statements and functions, and inside braces on one line; and none at the inner side of brackets, before commas (a missing value or argument aside), before argument lists, inside `{{ x }}`, around `:`, `^`, `**`, `?`, `::`, `$`, `@` and behind unary operators (a formula's `~` before more than a name or number aside). A comment behind code is one blank away from it (directly behind an opening bracket aside).",
 ["programs","configurations"],"every valid program with comments in ordinary places, however it is laid out",
 "Snapshots cover the combinations of neighbours that their authors thought of.",
 ["crates/air_r_formatter/src/r"],[("operators","crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"),("unary operators","crates/air_r_formatter/src/r/auxiliary/unary_expression.rs"),("argument lists and holes","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs")],
 "gaps between the tokens of the formatted text, by what they belong to")
p("R16","Lines are indented by what they are in, and lists and chains broken as a whole",
 "Each line of formatted text that doesn't begin within a string is indented by one unit for each list of arguments or parameters, condition, pair of parentheses broken behind its opening bracket, each pair of braces, and each operator with a line break behind it, around what begins the line (a chain of operators counts once, and not at all below an assignment with a line break behind it); a closing bracket is indented like the line of its opening one is meant to be. No line break is anywhere else. A list has all of its items on lines of their own, or none, in which case only the first and last of its arguments span lines; a chain of operators breaks at each operator or at none. (Table calls, test_that() calls and parameters kept on one line aside.)",
 ["programs","configurations"],"every valid program with comments in ordinary places, and every combination of settings",
 "Snapshots cover nestings of few kinds.",
 ["crates/air_r_formatter/src/r","crates/air_r_formatter/src/either.rs"],[("chains","crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"),("lists","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs"),("hugging","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs")],
 "indentation and line breaks of the formatted text against its syntax tree")
p("R17","Blank lines between statements stay, within bounds",
 "Statements and the comments between them are on lines of their own (comments behind statements stay there), with the blank lines of the source between them: at most two between statements of a file, at most one within braces, between comments, and between a comment and its statement; none at the start or end of a file or braces. Statements that shared a line get none. Between the arguments of a call and behind the operators of a chain, an empty line stays one, and none is added.",
 ["programs","configurations"],"every valid program with comments between statements",
 "Snapshots cover a handful of gaps.",
 ["crates/air_r_formatter/src/r/lists/expression_list.rs","crates/air_r_formatter/src/r/auxiliary/root.rs"],[("expression lists","crates/air_r_formatter/src/r/lists/expression_list.rs")],
 "line breaks between statements and comments, in the source and in the formatted text")
p("R18","Only the documented line breaks are the author's",
 "Putting or taking single line breaks behind arguments, in conditions, in parentheses, behind operators other than the first of a chain or an assignment, at the brackets of braces, and before bodies that are in braces anyway, changes nothing about the formatted text; with persistent-line-breaks off the same goes for those behind opening brackets, first operators and assignments.",
 ["programs","configurations"],"every pair of programs that differ in such line breaks only",
 "Snapshots format each file once, as written.",
 ["crates/air_r_formatter/src/r"],[("persistent line breaks","crates/air_r_formatter/src/r/auxiliary/call_arguments.rs"),("chains","crates/air_r_formatter/src/r/auxiliary/binary_expression.rs")],
 "formatted texts of both programs")
# ---- CLI
p("A01","Check mode never writes and agrees with write mode",
 "`air format --check` leaves every file and its metadata as they were, lists exactly the files that `air format` would rewrite, and, where every file can be handled, fails exactly if there is one; `air format` writes what formatting gives under the settings that govern each file and keeps its permissions; after `air format` succeeded, `--check` succeeds.",
 ["histories","configurations","inputs"],"every tree of R files and settings, formatted and unformatted, valid and invalid",
 "Integration tests use one or two files.",
 ["crates/air/src/commands/format/paths.rs"],[("format_paths","crates/air/src/commands/format/paths.rs")],
 "directory snapshots before and after, output and exit status of the binary")
p("A02","A file that cannot be formatted is left alone and reported",
 "A file with syntax errors, invalid UTF-8 or missing permissions is left byte for byte as it was, is reported, and makes the run fail; it does not keep the other files of the same run from being formatted. Files already formatted are not rewritten.",
 ["inputs","fault_sequences"],"every mix of good and bad files, in any order and number",
 "Tests use a single bad file.",
 ["crates/air/src/commands/format/paths.rs"],[("error collection","crates/air/src/commands/format/paths.rs")],
 "file bytes and modification times, exit status, messages")
p("A03","Formatting standard input equals formatting the file",
 "`air format --stdin-file-path P` writes to standard output exactly what `air format` would have written to P with the same content, under the settings that govern P, and passes the input through unchanged if P is excluded; it touches no file.",
 ["inputs","configurations"],"every source, path and settings hierarchy",
 "Fixed samples only.",
 ["crates/air/src/commands/format/stdin.rs"],[("format_stdin","crates/air/src/commands/format/stdin.rs")],
 "standard output against the file written by the other mode")
p("A04","What air prints, and where to, does not change what it does",
 "For every command, the files written, the exit status and the standard output are the same whatever the log level, the color settings and the environment, and whether messages go to a terminal's stand-in, nowhere, a full device, a closed descriptor or a reader that is slow or gone; air never dies of it. Formatted text that can't be written to standard output is an error, never a success; messages above the chosen log level are not printed, errors always are, and there are no escape sequences with --no-color. Command lines that are wrong do nothing and say so.",
 ["configurations","fault_sequences","inputs"],"every command, tree, level, environment and kind of output",
 "The tests capture output in memory, where writing never fails.",
 ["crates/air/src/logging.rs","crates/air/src/main.rs","crates/air/src/commands/format.rs","crates/air/src/commands/format/stdin.rs"],[("init_logging","crates/air/src/logging.rs"),("format_stdin_write","crates/air/src/commands/format/stdin.rs")],
 "files, status, output and messages of one command in ordinary and in hostile surroundings")
# ---- LSP
p("X01","Every request gets one answer, and messages act in order",
 "For any valid session, every request is answered exactly once with its own id, and observes all notifications sent before it and none sent after it; notifications get no answer, unknown methods get an error, and shutdown followed by exit ends the server.",
 ["histories","schedules"],"every interleaving of requests and notifications, sent in bursts or one by one",
 "Tests send one request at a time.",
 ["crates/lsp/src/main_loop.rs","crates/lsp/src/tower_lsp.rs"],[("event loop over an unbounded channel","crates/lsp/src/main_loop.rs")],
 "recorded client log of requests and answers",state=["WorldState","LspState"])
p("X02","Formatting edits bring the buffer to the formatter's output",
 "After any history of opening, changing and closing documents, the edits answering a formatting request, applied to the client's buffer, give exactly the text the formatter gives for that buffer under the governing settings; a document with syntax errors, or an excluded one, gets no edits.",
 ["histories","programs"],"every history of changes and every buffer, multi-byte and with either line ending",
 "Tests format a single short buffer.",
 ["crates/lsp/src/handlers_format.rs","crates/lsp/src/documents.rs","crates/aether_lsp_utils/src/proto/to_proto.rs"],[("document_formatting","crates/lsp/src/handlers_format.rs")],
 "client buffer after applying the edits")
p("X03","Range formatting changes only the selected statements",
 "The edits answering a range formatting request touch only the lines of the logical lines the selection overlaps (all of each, however little of it is selected), leave the rest of the buffer byte for byte as it was, and keep the program (tokens and comments) the same.",
 ["programs","inputs"],"every buffer and every selection in it",
 "Tests select a few marked ranges.",
 ["crates/lsp/src/handlers_format.rs"],[("find_deepest_enclosing_logical_lines","crates/lsp/src/handlers_format.rs")],
 "client buffer after applying the edits")
p("X04","The server follows air.toml files and workspace folders",
 "After any history of opening and closing workspace folders and of creating, changing and deleting `air.toml` files the server is told of, each document is formatted under the settings that govern it now (those of the closest `air.toml` above its innermost workspace folder, else the editor's); and a client that keeps only what the last `air/syncFileSettings` said knows the settings of every open document that an `air.toml` governs, and of no other.",
 ["histories","configurations"],"every history of folders, settings files and documents",
 "Tests cover one folder, one air.toml and one or two documents.",
 ["crates/lsp/src/workspaces.rs","crates/lsp/src/handlers_state.rs","crates/lsp/src/main_loop.rs"],[("reload_workspaces_matched_by_url","crates/lsp/src/workspaces.rs"),("sync_file_settings","crates/lsp/src/main_loop.rs")],
 "client buffer after applying the edits, and the synchronization notifications")
p("X05","The editor's log settings take effect, and break nothing else",
 "The language server accepts every documented value of `air.logLevel` and any text as `air.dependencyLogLevels`, at the start as initialization options and later as changed configuration; while a level is in force the editor is sent log messages of that level and the more severe ones, and none of a lesser one; messages of a dependency arrive exactly if `air.dependencyLogLevels`, as it is at that time, asks for them; the environment variables `AIR_LOG_LEVEL` and `AIR_DEPENDENCY_LOG_LEVELS` win over both. Whatever the log settings are, all requests are answered as without them, and changes of the other settings made at the same time take effect (turning `air.syncFileSettingsWithClient` on sends the settings of the open documents).",
 ["configurations","histories"],"every value of the log settings, every client and every history of changes to them",
 "Tests don't look at the log, and start every server with the same settings.",
 ["crates/lsp/src/logging.rs","crates/lsp/src/settings.rs","crates/lsp/src/settings_vsc.rs","crates/lsp/src/handlers_state.rs"],[("log_filter and LogState::reload","crates/lsp/src/logging.rs"),("update_config","crates/lsp/src/handlers_state.rs")],
 "log notifications, answers and settings notifications the client receives")
p("X06","The views of a document are those of its text",
 "Whatever a document has been through, `air/viewFile` answers with the tree-sitter tree (each node once, with its field, kind and place), the syntax tree or the formatting tree (for 80 columns and spaces, under any settings) of the text the editor has at that moment, and with `*Parse error*` exactly if that text has a syntax error. It is the same as for a document opened with that text, and a view changes nothing.",
 ["histories","inputs"],"every history of a document, text and kind of view",
 "No test asks for a view.",
 ["crates/lsp/src/handlers_ext.rs"],[("view_file","crates/lsp/src/handlers_ext.rs"),("format_ts_node","crates/lsp/src/handlers_ext.rs")],
 "answers against the trees of the editor's text, taken without a server")
# ---- VS Code extension
p("E01","The extension runs the program its settings and workspace trust name",
 "On start and on every restart the VS Code extension runs `air language-server` from the program that `air.executableStrategy` and `air.executablePath` name for the root folder (of the open folders that exist, the one with the shortest path), with the documented fall-backs between the bundled program and the one on the PATH, and none if there is none; in an untrusted workspace only ever the bundled one; log options are taken from the user's settings only. Terminals get the directory of the running server prepended to their PATH exactly while a server runs and `air.addExecutableToTerminalPath` is on, and not beyond the session.",
 ["configurations","histories"],"every combination of installed programs, folders, trust and settings at the levels of user, workspace and folder, and every history of changes and restarts",
 "The extension's tests start one server in one folder with default settings, and are not among those that run here.",
 ["editors/code/src/binary.ts","editors/code/src/lsp.ts","editors/code/src/environment.ts","editors/code/src/settings.ts","editors/code/src/workspace.ts"],[("resolveAirBinaryPath","editors/code/src/binary.ts"),("PathEnvironmentVariableManager","editors/code/src/environment.ts")],
 "programs started, their arguments and options, and the terminals' environment, in a model of the editor")
p("E02","Initializing a workspace folder adds what is missing and loses nothing",
 "Initialize Workspace Folder creates `air.toml` in the chosen folder only if it has neither `air.toml` nor `.air.toml`, appends to an existing `.Rbuildignore` exactly the patterns it lacks, creates `.vscode/extensions.json` if there is none, sets air as the folder's formatter of R (and Quarto's of Quarto) without losing the folder's other settings or copying inherited ones, and changes nothing else, byte for byte, in that folder or any other. Doing it a second time changes nothing; unsaved files of that folder (and no others) are saved first, if the user agrees, and otherwise nothing is done.",
 ["configurations","inputs","fault_sequences"],"every content of the folder, every set of open folders and unsaved documents, every answer of the user and every file that can't be written",
 "The extension's tests cover two or three prepared folders.",
 ["editors/code/src/command/workspace-folder-initialization.ts","editors/code/src/workspace.ts"],[("workspaceFolderInitialization","editors/code/src/command/workspace-folder-initialization.ts"),("saveAllDirtyWorkspaceTextDocuments","editors/code/src/workspace.ts")],
 "files of all folders and settings at all levels before and after")
p("E03","Formatting a workspace folder formats that folder, as it is saved",
 "Format Workspace Folder runs `air format` once, with the running server's program, on exactly the chosen folder, after all unsaved files of that folder, and no other files, have been saved with the user's consent; without consent, or if saving fails, it does not run. It says that it succeeded exactly if the program did.",
 ["configurations","histories","fault_sequences"],"every set of folders (nested, sibling-prefixed, same-named), documents, answers and failures",
 "The extension's tests format one folder without unsaved files.",
 ["editors/code/src/command/workspace-folder-formatting.ts","editors/code/src/workspace.ts","editors/code/src/process.ts"],[("workspaceFolderFormatting","editors/code/src/command/workspace-folder-formatting.ts"),("selectWorkspaceFolder","editors/code/src/workspace.ts")],
 "what a stand-in for the program was called with and read, saved documents, and messages shown")
p("E04","Editors follow the server's settings, and the server the editor's",
 "Once an editor is active, its indentation settings are what the server's last `air/syncFileSettings` says of its document, if it says anything, whichever came first; other options and other editors are left alone. Questions of the server for configuration are answered, in order, with the values in force for that document, those for its language included, or in general where the document isn't open.",
 ["histories","configurations"],"every history of notifications, switches between editors, settings and questions, with untitled documents, notebook cells and any file name",
 "The extension's tests check one document with a plain name.",
 ["editors/code/src/notification/sync-file-settings.ts","editors/code/src/lsp.ts"],[("SyncFileSettings","editors/code/src/notification/sync-file-settings.ts"),("configuration middleware","editors/code/src/lsp.ts")],
 "options of all editors after each step, and answers to the server")
p("E05","Starts, restarts and stops of the server happen one after the other",
 "However starts, restarts and the deactivation of the extension overlap, and whichever of them fail, they take effect one after the other in the order of the requests: at most one server runs at any time, each restart ends with a server started after it was asked for or reports a failure, a failure does not keep later restarts from succeeding, and after deactivation none runs and terminals keep nothing.",
 ["schedules","histories","fault_sequences"],"every overlapping of requests, delay of the server and failure to start or stop",
 "Tests start and stop once, one at a time.",
 ["editors/code/src/lsp.ts","editors/code/src/extension.ts","editors/code/src/commands.ts"],[("Lsp state machine and task queue","editors/code/src/lsp.ts")],
 "starts and ends of servers, results of the commands, and the terminals' environment")
p("E06","The views of a file show what the server says of the active R file",
 "Each of the three views (syntax trees and format tree) shows the server's answer for the kind of the view, the document of the active R editor, its present contents and the cursor, after the command, after an edit and after a switch to another R editor; saving the representations writes all three to the chosen file.",
 ["histories"],"every history of views opened, edits and switches of the editor",
 "There are no tests of the views.",
 ["editors/code/src/request/viewFile.ts"],[("view providers","editors/code/src/request/viewFile.ts")],
 "contents of the view documents after each step, and the archive written")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,x['title']
print(len(P))
