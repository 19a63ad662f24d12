#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Run after editing."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))
I="internal/instructions/"; O="internal/overlays/"; A="internal/actions/"; B="internal/builder/"; C="internal/commands/"

prop("C01","Results do not depend on scheduling",
 "For any instructions and inputs, every interleaving of the tool's concurrent work yields the same output files, the same stdout (documents and list of written files in the order the files are listed in the instructions) and the same success or failure. Every interleaving terminates: no deadlock, no lost, duplicated or mixed-up document, and an overlay shared between files behaves as if each file were processed alone. No two goroutines access shared memory without synchronisation.",
 ["schedules"],"every interleaving of the per-file workers, the per-file overlay queues, the collector and the output stage, for 1-3 files sharing overlays, with and without failing overlays",
 "The tests run each scenario once under one scheduler-chosen interleaving, with the same files, and never compare outputs; an order-dependent result or a hang under another interleaving is invisible to them.",
 [I+"execute.go",O+"workstream.go",I+"yamlfile.go",I+"config.go",O+"onmissing.go",I+"instructions.go"],
 [("errgroup of per-file workers, collector channel closed after the group",I+"execute.go Execute"),("unbuffered per-file work stream fed in order",O+"workstream.go, "+I+"yamlfile.go queueOverlays"),("overlay values deep-copied before insertion",A+"replace.go, "+A+"merge.go addNode")],
 ["output directory contents","stdout","exit status"],
 state=[("commonOverlays","overlay objects shared by every file's worker",I+"instructions.go addCommonOverlays"),("onMissing.action","per-overlay default resolved while running",O+"onmissing.go")])

prop("C02","Overlays apply in the documented order and scope",
 "For every document of every listed file the overlays applied are exactly, and in this order: the common overlays in listed order, then the command-line overlay, then the overlays of each instructions entry naming that file (directly or through its directory) in entry order, then those of its documents entries whose index is that document's 0-based index. documentIndex, a list, restricts a common overlay or an overlay of an entry to the listed indices. No overlay given for one file or document ever takes effect on another.",
 ["inputs","configurations"],"every assignment of a bounded set of order-sensitive overlays to the scopes (common, CLI, per-file, per-document, documentIndex, duplicate entries), over 1-3 files with 1-3 documents",
 "Tests execute two fixed instruction files and only check that no error is returned; no test checks the order or the scope of overlays.",
 [I+"instructions.go",I+"yamlfile.go",I+"document.go",I+"config.go",O+"overlay.go",O+"workstream.go"],
 [("common overlays prepended",I+"instructions.go addCommonOverlays"),("queueing in order with index checks",I+"yamlfile.go queueOverlays, "+O+"overlay.go CheckDocumentIndex, "+I+"document.go checkDocumentIndex"),("entries for the same path merged",I+"yamlfile.go mergeDuplicates")],
 ["output documents"])

prop("C03","documentQuery gates an overlay exactly as specified",
 "An overlay carrying a documentQuery is applied to a document if and only if at least one conditions group has all its conditions met; a condition is met when its query matches something in the document as it stands at that moment and, if a value is given, every matched node is the same data as that value (kind, type and content, regardless of comments, quoting style or position). An overlay without documentQuery, or with an empty one, always applies; a gated-out overlay leaves the document untouched, including its onMissing handling.",
 ["inputs"],"every documentQuery of up to 3 groups with up to 3 conditions over an alphabet of queries/values, against every document of a small document set, also after earlier overlays changed the document",
 "Three unit cases of one single-condition group exist; and/or combinations, values of other kinds and state left by earlier overlays are never sampled.",
 [O+"documentquery.go",O+"overlay.go",O+"query.go"],
 [("any-of groups, all-of conditions",O+"documentquery.go checkQueries/checkQuery"),("comparison ignoring presentation",O+"documentquery.go cmpopts")],
 ["output documents"])

prop("C04","merge deep-merges maps, appends arrays, replaces scalars",
 "Merging a value into a matched node keeps every original map key and its position, merges keys present in both recursively, appends keys only in the overlay in overlay order, appends overlay array items after the original ones, and replaces a scalar (value and type) by an overlay scalar; where the kinds differ the overlay's value takes the place of the original. merge is the action used when none is given. The instructions' value itself is never altered, so the same overlay has the same effect at every place it is applied.",
 ["inputs","histories"],"every pair (original subtree, overlay value) of bounded-depth trees over a small alphabet, at several positions, and sequences of overlays up to a depth",
 "Five fixed merge cases on one document; nested conflicts, repeated application of the same overlay and kind changes are unbounded combinations tests only sample.",
 [A+"merge.go",O+"overlay.go",A+"action.go"],
 [("recursive merge by kind",A+"merge.go merge/mergeMap/mergeArray/mergeScalar"),("deep copy on insertion",A+"merge.go addNode"),("default action",O+"overlay.go UnmarshalYAML/doAction")],
 ["output documents"])

prop("C05","replace installs exactly the overlay's value at each match",
 "After a replace overlay every matched node holds exactly the overlay's value (data and type), whatever was there before; each match gets its own independent copy, so later overlays changing one copy change neither the others, nor the same overlay's effect elsewhere. Keys selected with the key operator (~) are renamed with their values kept.",
 ["inputs","histories"],"every pair (original, value) of bounded trees and every multi-match query, followed by every single later overlay on one of the copies",
 "Three fixed replacements are tested; aliasing between copies only shows up in sequences of overlays that no test runs.",
 [A+"replace.go",O+"overlay.go"],[("deep copy over the matched node",A+"replace.go ReplaceNode")],["output documents"])

prop("C06","delete removes exactly the matched nodes",
 "After a delete overlay every matched node is gone, a deleted map entry taking its key with it and a deleted array item closing the gap, all other entries keep their data and order; deleting several siblings, nested matches, keys selected with ~, or the whole document works the same way. A document deleted as a whole is omitted from the output, a file all of whose documents are deleted produces no output, and later overlays leave a deleted document deleted.",
 ["inputs","histories"],"every bounded tree with every subset of its nodes selected by a query of the alphabet, and sequences of deletions and other overlays on the remainder",
 "Three single-match deletions are tested; index arithmetic over multiple, nested and boundary positions is not.",
 [A+"delete.go",O+"overlay.go",I+"config.go",O+"query.go"],
 [("pointer-identity removal with key/value arithmetic",A+"delete.go DeleteNode"),("empty documents skipped on output",I+"config.go encodeNodes/doPostProcessing"),("guard for deleted documents",O+"query.go Queries.Find")],
 ["output documents","set of output files"])

prop("C07","combine adds integers, joins strings, ands booleans",
 "combine of an integer with an integer yields their exact sum, of a string with a string their concatenation in order original-then-overlay, of a boolean with a boolean their conjunction, each result keeping the original's type. If either side is a map or an array, or an integer sum cannot be represented or an operand cannot be read as that type, the run fails with an error and that file is not written; a wrong value is never silently produced.",
 ["inputs"],"every pair from an alphabet of integers (all YAML notations, int64 boundaries), booleans (all spellings), strings and non-scalars",
 "Seven samples; boundaries (overflow, octal/hex notation) and error pairs are not tested.",
 [A+"combine.go",O+"overlay.go"],[("per-type combination",A+"combine.go CombineNode")],["output documents","exit status"])

prop("C08","onMissing injects or ignores exactly when nothing matches",
 "If none of an overlay's queries matches, then with the inject action (on the overlay, or as configured default when the overlay names none) a merge or replace overlay creates the dotted/bracketed query path - or, if any query is not such a path, each of its injectPath entries - with exactly the overlay's value, keeping everything else, so that the path now finds that value; intermediate maps are reused. With ignore, without any usable injectPath, for combine and delete, or when any query did match, nothing is injected.",
 ["inputs","configurations"],"every combination of action, onMissing setting, default setting, query form, injectPath list and pre-existing partial path over bounded documents",
 "No test exercises onMissing at all except one fixed instructions run that only checks for the absence of an error.",
 [O+"onmissing.go",O+"overlay.go",B+"path.go",A+"merge.go"],
 [("default resolution and inject dispatch",O+"onmissing.go onMissing/handleInjectPath"),("scaffold built, merged, then replaced",O+"onmissing.go doInjectPath, "+B+"path.go BuildPaths")],
 ["output documents"])

prop("C09","Inject paths mean what the query language says they mean",
 "Every path written in dot or bracket-quote notation (any key characters, escapes, several names in one bracket, optional leading $) that is injected creates exactly the keys (compared by their text) the query language would look up for that text: afterwards the same text, used as a query, finds the injected value and nothing else was created. Text that is not such a path is recognised as such and creates nothing; analysing any text terminates without crashing.",
 ["inputs"],"every string up to a length bound over an alphabet of path-significant characters, injected into an empty map",
 "The path builder has no tests; it duplicates the query parser and any drift between the two is only visible over the whole input language.",
 [B+"lexer.go",B+"path.go",O+"onmissing.go"],
 [("state-function lexer",B+"lexer.go"),("node builder, unescaping and bracket splitting",B+"path.go")],
 ["output documents","exit status"])

prop("C10","An overlay acts on every match and on nothing else",
 "An overlay acts on every node matched by any of its queries (dotted, indexed, wildcard, recursive, filter, key and multi-query lists) in every document in scope; all data not inside a matched node - siblings, ancestors, other documents and other files, including key order, types and array order - is the same in the output as in the input; an alias refers to its anchored node, so it shows what is changed in that node and otherwise keeps its data. If nothing matches and nothing is injected the document's data is unchanged.",
 ["inputs"],"every query of an alphabet covering the query forms, alone or in lists, with every action, over every document of a bounded set",
 "Action tests always take the first match of one query on one document; multi-match effects and the unchanged remainder are not covered.",
 [O+"query.go",O+"overlay.go",A+"merge.go",A+"replace.go",A+"delete.go",A+"combine.go"],
 [("union of matches over all queries",O+"query.go Queries.Find"),("action per match",O+"overlay.go doAction")],["output documents"])

prop("C11","Format markers expand to the original text",
 "In a merge overlay every %v, %k, %h, %l, %f in a scalar value, map key or comment is replaced by the matched node's original value, its key, and its head, line and foot comment text (comments also in replace and combine); every occurrence is expanded, a sed command in braces after the marker is applied to that text first, and all other text is kept literally. A map key containing a marker applies to every existing key of the matched map and renames each accordingly. %k in a merged map is the key of that place in the map. For values newly added by a merge (nothing original), markers expand to nothing.",
 ["inputs"],"every template of up to 4 tokens (markers, sed-suffixed markers, literal text) x every original value/key/comment combination of an alphabet",
 "Formatting is exercised by a handful of fixed templates; multi-marker, repeated and sed-suffixed templates combine without bound.",
 [A+"format.go",A+"markers.go",A+"merge.go"],
 [("marker regexp and sed engine",A+"format.go doFormat"),("marker arguments",A+"merge.go mergeScalar/mergeComments"),("marker keys",A+"markers.go checkForMarkers, "+A+"merge.go mergeMap")],
 ["output documents"])

prop("C12","Comments are preserved and injected where specified",
 "Unless comment removal is requested, every head, line and foot comment of the source appears in the output on the same key or item with the same text, for all nodes that survive; a merge, replace or combine whose value carries a comment at some position (head, line or foot) sets the matched node's comment at that position only, and leaves its comments at other positions as they were. Comments are attached to nodes as the YAML library attaches them; where the output style has room for only one of two line comments, or none, a line comment moves to the line above.",
 ["inputs"],"every subset of comment positions on the source nodes x every subset on the overlay value x action x style settings",
 "A few comment cases are tested, each with one combination of positions; the 2^n combinations of source and overlay comments are not.",
 [A+"merge.go",A+"replace.go",A+"combine.go",I+"config.go"],
 [("per-position comment merge",A+"merge.go mergeComments"),("original comments restored on replace",A+"replace.go ReplaceNode")],["output text"])

prop("C13","--remove-comments removes every source comment, nothing else",
 "With comment removal on, no comment of any source file (head, line, foot, before the first or after the last key, inside arrays and nested maps, in any document) reaches the output, while the data is unchanged and comments injected by overlays are kept. Markers that refer to removed comments expand to nothing.",
 ["inputs"],"every subset of comment positions in bounded multi-document files, with and without comment-injecting overlays",
 "No test uses the option.",
 [I+"yamlfile.go",I+"instructions.go"],[("recursive comment removal before overlays",I+"yamlfile.go removeCommentsFromNode, "+I+"instructions.go GetInstructions")],["output text"])

prop("C14","Formatting options never change data; output is valid YAML",
 "Whatever the output style(s), indent level and destination, each output is a valid YAML stream starting with a document separator whose documents, in source order, carry exactly the data (types included) produced by the overlays; stdout is the concatenation, in listed order, of what would be written to the files and parses to the same documents. The style and indent requested are the ones used: a quoting or block style for strings, unless a string could not be read back from it and is quoted instead.",
 ["inputs","configurations"],"every style/style pair x indent 2-9 x destination over documents built from an alphabet of scalars that need quoting and nested collections",
 "Output options are not exercised by any test beyond the default.",
 [I+"config.go",A+"style.go"],
 [("encoder set-up, separators and style forcing",I+"config.go encodeNodes"),("style parsing and propagation",A+"style.go")],["output files","stdout"])

prop("C15","Outputs land where specified and never on a source",
 "Each file with remaining content produces exactly one output: at its path relative to the deepest directory common to all processed files, under the output directory; or where its outputPath says (file name, directory keeping the original name - for a directory entry keeping the relative sub-path - or absolute path). Distinct files never share an output unless told to by outputPath, nothing else is created, and source files are never modified (unless the output location named by the user is the source), however the input paths are spelled. The names of written files are listed on stdout; in stdout mode no file is written.",
 ["inputs","configurations"],"every combination of a set of directory layouts, path spellings (relative, absolute, unclean, nested, file or directory), outputPath forms and output directories",
 "Tests only check that two fixed runs return no error.",
 [I+"instructions.go",I+"utils.go",I+"config.go",I+"yamlfile.go"],
 [("common path prefix",I+"utils.go GetCommonPrefix"),("output path derivation",I+"instructions.go setOutputPath"),("opening below the output directory",I+"config.go openOutputFile")],
 ["file system after the run","stdout"])

prop("C16","Directory entries process every YAML file once",
 "A path naming a directory stands for all .yaml/.yml files below it, recursively, in place of the entry, each receiving that entry's overlays and documents; other files are ignored. A file named by several entries, directly or through directories and however spelled, is read and written once, gets the overlays of all those entries in entry order, and its last listed outputPath wins. A directory entry with a file name as outputPath, or a missing path, is an error.",
 ["inputs","configurations"],"every sequence of up to 3-4 entries over a small tree of files and directories with distinguishable overlays and output paths",
 "One directory run without checking outputs exists.",
 [I+"yamlfile.go",I+"utils.go"],[("expansion",I+"yamlfile.go expandDirectories, "+I+"utils.go getFileNames"),("merging of duplicate entries",I+"yamlfile.go mergeDuplicates")],
 ["file system after the run","exit status"])

prop("C17","Values files merge in order and render the instructions",
 "With values files, the instructions are the Go template (with Sprig functions) in the instructions file rendered with the deep merge of the values in command-line order: maps merge by key, later scalars win, arrays append, nothing else is lost. Without values files the instructions file is used verbatim. A missing or invalid values file, a template error or a rendering that is not valid YAML is an error and nothing is written.",
 ["inputs","configurations"],"every sequence of up to 3 values files from an alphabet of small value trees, and templates reading each key",
 "Three fixed merges are tested; rendering with templates and functions is not tested at all.",
 [I+"values.go",I+"template.go",I+"instructions.go"],[("values merged with the merge action",I+"values.go getValues"),("template rendering",I+"template.go renderInstructionsTemplate")],
 ["output documents","exit status"])

prop("C18","One-off overlays equal the same common overlay",
 "A command-line overlay (query, action, value) with or without a path and with or without an instructions file produces the same documents as the same overlay written as last common overlay of an instructions file that also lists that path. Reading the input from stdin (path -) is equivalent to reading a file with that content, its output being named stdin.yaml; all query flags given form one query list; the default action is merge.",
 ["inputs","configurations"],"every overlay of an alphabet x document x input channel (file, directory, stdin, instructions) x destination",
 "No test covers the command-line overlay or stdin.",
 [I+"config.go",C+"flags.go",O+"query.go",A+"action.go"],[("ad-hoc paths and overlays",I+"config.go ReadAdHocPaths/ReadAdHocOverlays"),("flag values",O+"query.go Set, "+A+"action.go Set, "+C+"flags.go")],
 ["output files","stdout"])

prop("C19","Each setting comes from its highest-priority source",
 "For every setting (indent level, output style, output directory, stdout, comment removal, default onMissing action, log level) the value used is the command-line flag if given, else its YOT_* environment variable, else the config file, else the documented default; settings do not influence one another. The config file is the one named by --config, else by YOT_CONFIG_FILE, else the first found of the working directory and $HOME/.yot; the env command reports the values in effect.",
 ["configurations"],"every subset of sources per setting with distinct values, for every setting and every pair of settings, and every subset of config file locations",
 "Flag initialisation is only checked for usage strings.",
 [C+"root.go",C+"flags.go",C+"env.go"],[("flag, environment and config binding",C+"flags.go, "+C+"root.go initConfig"),("environment names",C+"env.go envMap")],
 ["effect on output","env output"])

prop("C20","Every failure is reported and no wrong file is written",
 "If any input, instruction, query, values file, overlay application or output write fails, the run exits non-zero with a message; a zero exit status means every output exists and is complete. When reading, parsing or applying overlays fails nothing is written at all, and a failing run never modifies sources nor writes a partially overlaid document.",
 ["fault_sequences","inputs"],"every kind of failure at every position (entry, document, overlay) of bounded instructions, and a write failure after every possible number of bytes of every output",
 "Tests contain no failing run of the tool and no I/O faults.",
 [I+"execute.go",I+"config.go",O+"workstream.go",C+"root.go",I+"instructions.go"],[("error propagation through worker group and collector",I+"execute.go"),("output errors",I+"config.go doPostProcessing/openOutputFile"),("exit status",C+"root.go Run")],
 ["exit status","stderr","file system after the run"],
 )

prop("C21","No input crashes or hangs the tool",
 "For every instructions file, values file, YAML input and option value - well-formed or not - the tool either succeeds or exits with an error message; it never panics, never loops or blocks forever (unless the user's own template or sed program does).",
 ["inputs"],"every instructions file obtained by giving each field of an overlay/entry each value of an alphabet of unusual values (missing, empty, null, wrong kind, malformed), over unusual documents (empty, null, comment-only, scalar, list, deleted), and every history of two overlays",
 "Tests use well-formed input only.",
 [O+"onmissing.go",O+"overlay.go",A+"merge.go",B+"lexer.go",I+"config.go",I+"yamlfile.go",O+"query.go"],[("nil/empty guards",O+"query.go, "+A+"merge.go mergeDocument"),("error returns throughout","internal/*")],
 ["exit status","stderr"])

prop("C22","Re-running overlays on their own output is stable",
 "Applying a run's replace, delete, inject or scalar/map merge overlays (without markers) again to that run's output produces the same output, byte for byte, and processing an output without overlays reproduces it byte for byte. Outputs do not depend on the path by which a document was reached, only on its content.",
 ["histories"],"every document reachable by up to N overlays of an alphabet from a set of start documents",
 "No test runs the tool twice; stability quantifies over all reachable documents.",
 [A+"merge.go",A+"replace.go",A+"delete.go",O+"onmissing.go",I+"config.go"],[("overlay application",O+"overlay.go"),("encoder",I+"config.go encodeNodes")],["output files"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
