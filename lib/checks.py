"""Which workloads decide which property."""


def leg(crate, bin, mode="native", **kw):
    return {"crate": crate, "bin": bin, "mode": mode, **kw}


def budget(quick, thorough):
    return {"quick": quick, "thorough": thorough}


_STANDINS = ["The stand-ins in stubs/ for the git dependencies missing here behave as the originals where air uses them (they reproduce all of air's parser and formatter snapshots)."]

_HOST = ["The model of VS Code and of its language client (harness/vscode/host.js) behaves as they do where the extension uses them."]

CHECKS = {
    "L01": dict(
        technique="reference-model monitor over generated and exhaustively enumerated texts, repeated under AddressSanitizer and Miri",
        rule="every string of up to 8 characters over {CR, LF, a, é} and random texts in six styles up to 64 KiB; non-trivial: contains CRLF",
        legs=[leg("base", "l01"), leg("base", "l01", "asan"), leg("base", "l01", "miri", budget=budget(40, 240))],
    ),
    "L02": dict(
        technique="reference-model monitor over generated and exhaustively enumerated texts",
        rule="every string over {CR, LF, a, é} up to a length and random texts; non-trivial: contains a line ending",
        legs=[leg("base", "l02")],
    ),
    "S01": dict(
        technique="monitor of every construction route against integer arithmetic",
        rule="every u16/u8 value and boundary values of the wider types, by every route (TryFrom, deserialization from TOML and JSON); each is non-trivial",
        legs=[leg("base", "s01")],
    ),
    "S02": dict(
        technique="set-model monitor over random name lists and their permutations",
        rule="random lists of names, with duplicates, look-alikes and Unicode, permuted; non-trivial: not empty",
        legs=[leg("base", "s02")],
    ),
    "S03": dict(
        technique="round-trip monitor over every documented spelling and generated near misses",
        rule="each option type × (documented spellings, case changes, near misses, random strings)",
        legs=[leg("base", "s03")],
    ),
    "D01": dict(
        technique="reference-recognizer monitor over generated comments",
        rule="texts assembled from comment parts, and mutations of directives; non-trivial: starts with #",
        legs=[leg("base", "d01")],
    ),
    "F01": dict(
        technique="byte-level reference-model monitor over generated paths",
        rule="paths assembled from ordinary, dot, dot-dot, empty, non-UTF-8 and cwd components; non-trivial: not empty",
        legs=[leg("base", "f0x")],
    ),
    "F02": dict(
        technique="byte-level reference-model monitor over generated paths",
        rule="paths assembled from stems and extensions, non-UTF-8 included; non-trivial: has a file name",
        legs=[leg("base", "f0x")],
    ),
    "W01": dict(
        technique="sequential-model monitor over random histories of add, remove, clear and queries",
        rule="histories over nested and sibling-prefix paths; non-trivial: more than one operation",
        legs=[leg("wsmod", "w01")],
    ),
    "W02": dict(
        technique="independent gitignore matcher as oracle over systematic and random pattern lists × paths",
        rule="(root, pattern list, path, kind); non-trivial: a pattern applies to the path or a parent",
        legs=[leg("wsmod", "w02")],
    ),
    "W03": dict(
        technique="reference-model monitor over generated paths built from default names and look-alikes",
        rule="paths at several depths and roots, as file and as directory",
        legs=[leg("wsmod", "w03")],
    ),
    "W04": dict(
        technique="independent tree walk as oracle, the walker's threads delayed through air's trace events, repeated under ThreadSanitizer",
        rule="random trees × arguments × configurations × gitignore files, each walked three to six times with delays and with the arguments reordered; non-trivial: finds more than one file",
        legs=[leg("ws:fmt", "w04", budget=budget(60, 300)), leg("ws:fmt", "w04", "tsan", env={"VK_FEW": "1"}, budget=budget(40, 240))],
        assumptions=_STANDINS,
    ),
    "W05": dict(
        technique="independent configuration lookup as oracle over random trees",
        rule="random trees × placements of configuration files, broken ones included × arguments; non-trivial: there is a configuration file",
        legs=[leg("ws:fmt", "w05", budget=budget(40, 240))],
        assumptions=_STANDINS,
    ),
    "W06": dict(
        technique="independent reading of generated and mutated documents as oracle",
        rule="every integer near the documented ranges, every option × every kind of value, generated documents in several notations and mutations of them; non-trivial: not blank",
        legs=[leg("ws:fmt", "w06", budget=budget(30, 240))],
        assumptions=_STANDINS,
    ),
    "P01": dict(
        technique="sequence oracle over encoded message streams under every kind of chunking, and through asynchronous pipes",
        rule="(message sequence, cut set); non-trivial: cut at least once or more than one message",
        legs=[leg("codec", "codec_h")],
    ),
    "P02": dict(
        technique="sequence oracle over streams with malformed messages, and a hostile-stream monitor with step bounds",
        rule="(stream, cut set); non-trivial: not empty",
        legs=[leg("codec", "codec_h")],
    ),
    "G01": dict(
        technique="printer round trip and independent reference parser as oracles over enumerated, generated and mutated grammars",
        rule="every sequence of up to 5 tokens and of up to 5 lexical characters, generated grammars under random layout, mutations of them, deep nesting; non-trivial: valid, or longer than 3 bytes",
        legs=[leg("base", "g01")],
    ),
    "Z01": dict(
        technique="monitor of host calls and unpacked files, the extension run natively against a scripted Zed host",
        rule="every operating system × architecture × version, with the published assets and with assets for every platform; each is non-trivial",
        legs=[leg("zed", "zed_h", unprivileged=True)],
        assumptions=["The stand-in for zed_extension_api 0.2.0 (harness/zedstub) answers as Zed does, and unpacks archives as cargo-dist lays them out."],
    ),
    "Z02": dict(
        technique="sequential-model monitor over histories with injected faults, the extension run natively against a scripted Zed host",
        rule="random histories of requests with faults, restarts, clutter and deleted binaries; non-trivial: more than one step",
        legs=[leg("zed", "zed_h", unprivileged=True)],
        assumptions=["The stand-in for zed_extension_api 0.2.0 (harness/zedstub) answers as Zed does."],
    ),
    "T01": dict(
        technique="stack-model monitor of environment, directory and file tree over random histories of scopes",
        rule="random histories of nested scopes, processes and deletions; non-trivial: more than one step",
        legs=[leg("base", "t01", unprivileged=True)],
    ),
    "R01": dict(
        technique="repeated-run monitor over generated, collected and mutated programs",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement, comments in ordinary places only",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(30, 300))],
        assumptions=_STANDINS,
    ),
    "R02": dict(
        technique="independent syntax tree comparison as oracle over generated, collected and mutated programs",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R03": dict(
        technique="comment conservation and order monitor over generated, collected and mutated programs",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R04": dict(
        technique="verbatim-region oracle over programs with injected directives and skip settings",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement, with directives put in",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R05": dict(
        technique="line monitor over generated, collected and mutated programs under random settings",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R06": dict(
        technique="comparison of tokens, comments and errors against the tree-sitter tree",
        rule="programs, damaged programs and arbitrary texts; non-trivial: not empty",
        legs=[leg("ws:fmt", "r06", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R07": dict(
        technique="panic and stack monitor over generated, mutated, deep and long programs",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R08": dict(
        technique="metamorphic monitor: the same program with other blanks",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R09": dict(
        technique="independent reading of the brace rules over the formatted syntax tree",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R10": dict(
        technique="width monitor, and metamorphic monitor over narrower line widths",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R11": dict(
        technique="line break monitor over pairs of source and formatted syntax trees",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R12": dict(
        technique="independent column model over the formatted tables",
        rule="generated tables (jagged, with holes, comments, named rest) in several contexts × table settings, and mutations; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R13": dict(
        technique="operator monitor over the formatted syntax tree",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R14": dict(
        technique="metamorphic monitor: the same program cut in two",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R15": dict(
        technique="independent table of blanks over neighbours in the formatted syntax tree",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R16": dict(
        technique="independent model of indentation and line breaks over the formatted syntax tree",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R17": dict(
        technique="count of line breaks between statements and comments, source against output",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "R18": dict(
        technique="metamorphic monitor: the same program with other line breaks where they don't count",
        rule="programs generated from a grammar, taken from air's specimens and mutations of them × random settings; non-trivial: has a statement",
        legs=[leg("ws:fmt", "rfmt_h", budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "U01": dict(
        technique="editor model as oracle over generated texts, edits and unions",
        rule="pairs of texts (independent, or one a mutation of the other), lists of edits built by hand, in any order, unions, and edit lists as sent by another server × encodings × line endings; non-trivial: there is something to edit",
        legs=[leg("ws:lsp", "utils_h", budget=budget(20, 300))],
        assumptions=_STANDINS,
    ),
    "U02": dict(
        technique="independent position count as oracle over every boundary of generated texts",
        rule="texts with characters of every width × every boundary × encodings; non-trivial: not empty",
        legs=[leg("ws:lsp", "utils_h", budget=budget(20, 300))],
        assumptions=_STANDINS,
    ),
    "U03": dict(
        technique="editor model as oracle over random histories of changes",
        rule="histories of notifications of none to many changes, one after the other or from the end to the start, incremental or whole texts × line endings × encodings; non-trivial: some notification has several changes",
        legs=[leg("ws:lsp", "utils_h", budget=budget(20, 300))],
        assumptions=_STANDINS,
    ),
    "X01": dict(
        technique="protocol monitor and editor model over random sessions with the language server, repeated under ThreadSanitizer",
        rule="sessions of 15 to 60 operations (open, change, close, format, view, configuration, folders, settings files, unknown and cancelled requests, shutdown), sent in bursts cut at random places × encodings × client capabilities; non-trivial: more than three answers",
        legs=[leg("ws:lsp", "session_h", also=["air"], unprivileged=True, budget=budget(25, 300)),
              leg("ws:lsp", "session_h", "tsan", also=["air"], unprivileged=True, env={"VK_INHERIT": "1"}, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "X02": dict(
        technique="editor model as oracle over random sessions with the language server",
        rule="as X01; every answer to a formatting request is applied to the editor's text and compared with the formatter's output for it",
        legs=[leg("ws:lsp", "session_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "X03": dict(
        technique="editor model and syntax-tree monitor over random sessions with the language server",
        rule="as X01, with more selections: whole statements, compared with these statements formatted on their own, and any others, whose surroundings and program must stay",
        legs=[leg("ws:lsp", "session_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "X04": dict(
        technique="sequential model of settings as oracle over random sessions with the language server",
        rule="as X01, with more changes of settings files and workspace folders",
        legs=[leg("ws:lsp", "session_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "A01": dict(
        technique="command-line runs over random file trees, with directory snapshots and a model of what is to be formatted as oracle",
        rule="a tree of directories, R files (formatted and not, invalid, unreadable, read-only, CRLF, large), links, locked directories and settings files, some broken; `air format --check`, `air format` and `--check` again with absolute, relative and roundabout paths from several directories; snapshots of contents, modes and times before and after each, messages and exit statuses against the model",
        legs=[leg("ws:lsp", "cli_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "A02": dict(
        technique="command-line runs over random file trees with files that can't be read, parsed or written",
        rule="as A01: each file that can't be handled keeps its bytes and is named in the messages, the others are formatted, and the run fails",
        legs=[leg("ws:lsp", "cli_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "A03": dict(
        technique="standard-input runs over random file trees compared with formatting under the settings that govern the path",
        rule="as A01, with the same and other contents given as standard input for present and absent paths, included or excluded, with and without --check; bytes of standard output, exit status, and snapshots of the tree",
        legs=[leg("ws:lsp", "cli_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "A04": dict(
        technique="differential monitor of the program in ordinary and in hostile surroundings",
        rule="random trees × commands (paths, standard input, wrong ones), each run in ordinary surroundings and in three others: log level, colors, environment, output and messages to a slow reader, nowhere, a full device, a closed descriptor, a pipe nobody reads, input in pieces; files, status, output and messages compared",
        legs=[leg("ws:lsp", "sur_h", also=["air"], unprivileged=True, budget=budget(25, 300))],
        assumptions=_STANDINS,
    ),
    "X05": dict(
        technique="log-level monitor over random sessions with the language server",
        rule="sessions with random clients, environment variables, initialization options and changes of the configuration, log settings and others together; non-trivial: the configuration changed",
        legs=[leg("ws:lsp", "log_h", also=["air"], unprivileged=True, budget=budget(25, 240))],
        assumptions=_STANDINS,
    ),
    "X06": dict(
        technique="differential monitor of views over random sessions with the language server",
        rule="as X01, with more views of every kind: compared with those of a document that has had the text from the start, and with a tree walk of its own",
        legs=[leg("ws:lsp", "session_h", also=["air"], unprivileged=True, budget=budget(25, 240))],
        assumptions=_STANDINS,
    ),
    "E01": dict(
        technique="model of the documented choice of the program as oracle over random machines, settings and histories, in a model of the editor",
        rule="(installed programs, folders, trust, settings at each level) × histories of changes and restarts; distinct by strategy, route, folders and when",
        legs=[leg("vscode", "e", "node", budget=budget(15, 240))],
        assumptions=_HOST,
    ),
    "E02": dict(
        technique="byte-level snapshots before and after, against a model of what may be added, in a model of the editor",
        rule="random folder contents, unsaved documents, answers and write failures; non-trivial: the folder is initialized",
        legs=[leg("vscode", "e", "node", budget=budget(20, 240))],
        assumptions=_HOST,
    ),
    "E03": dict(
        technique="recording stand-in for the program, and order of saves and calls, in a model of the editor",
        rule="random folders, documents, answers and failures; non-trivial: the folder is formatted",
        legs=[leg("vscode", "e", "node", budget=budget(20, 240))],
        assumptions=_HOST,
    ),
    "E04": dict(
        technique="sequential model of editor options and of configuration as oracle over random histories, in a model of the editor",
        rule="random notifications, switches, settings and questions; non-trivial: the server has said something of the document",
        legs=[leg("vscode", "e", "node", budget=budget(15, 240))],
        assumptions=_HOST,
    ),
    "E05": dict(
        technique="trace monitor of server starts and ends over randomly overlapping requests with injected delays and failures, in a model of the editor",
        rule="histories of start, restart and stop requests; distinct by operations, results and order of events",
        legs=[leg("vscode", "e", "node", budget=budget(15, 240))],
        assumptions=_HOST,
    ),
    "E06": dict(
        technique="view contents against the last answers of a recording server, in a model of the editor",
        rule="histories of views, edits and switches; distinct by kind, step and number of views",
        legs=[leg("vscode", "e", "node", budget=budget(20, 240))],
        assumptions=_HOST,
    ),
}

# Workloads of one thread are run as several processes at once, with random cases of their own.
_THREADED = {"session_h", "cli_h", "log_h", "w04", "t01"}
for _c in CHECKS.values():
    for _l in _c["legs"]:
        if _l["mode"] in ("native", "node") and _l["bin"] not in _THREADED:
            _l.setdefault("shards", budget(4, 8))

NOT_APPLICABLE = {}
