#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Y = "engines/yayamls/"
G = "engines/goyaml/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, na=na))

prop("P01", "The backtracking stream replays exactly what was read",
     "Under every sequence of reading, setting checkpoints, rolling back, committing and switching to a new source, a backtracking reader delivers the elements of its source in order, without loss, repetition or reordering. A rollback returns to the element that was current when the innermost outstanding checkpoint was set, a commit keeps the position, and a new source starts clean.",
     ["histories"], "every sequence of read, checkpoint, rollback, commit and source switch operations with rollback and commit only while a checkpoint is outstanding",
     "the parser and lexer nest checkpoints in ways tests sample; buffer wrap and drain states depend on operation history",
     [Y+"pkg/cpaccessor/accessor.go"],
     [("buffer of elements read past the oldest checkpoint", Y+"pkg/cpaccessor/accessor.go")],
     [("cursor", "index of the next element", Y+"pkg/cpaccessor/accessor.go"), ("checkpoint stack", "saved cursors", Y+"pkg/cpaccessor/accessor.go")],
     ["values returned by reads and rollbacks"],
     "exhaustive enumeration of operation sequences on the real accessor against a list-with-cursor model",
     "every legal sequence of up to 13 (quick) or 15 (thorough) operations, plus bulk operations crossing buffer sizes")
prop("P02", "Tokens cover the source exactly and carry exact positions",
     "For every source text, the produced tokens concatenated reproduce the source character by character, no token is empty, and the end of the source is reported once it is reached and ever after. Every token's row and column range is the range its text has in the source, for every kind of line break and however raw reading of block scalar text is switched on and off in between.",
     ["inputs", "histories"], "every source text and every schedule of switching raw reading on and off",
     "positions and lookahead depend on the combination of contexts, line breaks and multi-byte characters, far more than the listed examples",
     [Y+"lexer/tokenizer.go", Y+"lexer/context.go", Y+"lexer/rune_stream.go"],
     [("context stack of the tokenizer", Y+"lexer/context.go")],
     [("position", "row and column of the next character", Y+"lexer/tokenizer.go")],
     ["tokens delivered by the tokenizer"],
     "exhaustive enumeration of short sources and raw-mode switches on the real tokenizer against position recomputation",
     "all strings over seven alphabets up to 4-7 pieces (quick), plus long inputs")
prop("P03", "Every input is answered with a result or an error",
     "For every byte string and every token sequence, parsing returns either a tree or a descriptive error; it never panics, hangs or returns nothing. Reading an accepted document with any decoding operation and writing it back never panics or hangs either, in both engines.",
     ["inputs"], "every byte string, valid UTF-8 or not, and every token sequence",
     "a panic needs one unlucky combination of indicators, which example documents do not contain",
     [Y+"parser/parser.go", Y+"parser/block.go", Y+"parser/flow.go", Y+"parser/documents.go", Y+"parser/properties.go", Y+"decode/reader.go", Y+"encode/writer.go", G+"decode/reader.go"],
     [("error collection and dead end detection of the parser", Y+"parser/parser.go")],
     [("parser errors", "collected so far", Y+"parser/parser.go")],
     ["result and error of parsing, panics, running time without bound"],
     "exhaustive enumeration of short byte strings and token sequences under a crash and hang supervisor",
     "all strings over nine alphabets up to 3-6 pieces (quick), all token sequences up to 4 tokens over 26 token kinds")
prop("P04", "A document parses to the structure it denotes, however it is presented",
     "Every tree of scalars, sequences, mappings, anchors, tags and aliases, presented in any mix of block and flow style, indentation width, plain, quoted, literal or folded scalars, explicit or implicit keys, comments, blank lines, document markers and line break conventions, parses back to exactly that tree. Wherever the self-made parser and go-yaml both accept a text, they read the same structure and the same scalar texts from it (a colon directly before a flow bracket or comma aside).",
     ["inputs"], "every tree and every combination of presentation choices",
     "presentation choices interact (a comment inside a flow collection inside an explicit key); tests hold a few dozen documents",
     [Y+"parser/block.go", Y+"parser/flow.go", Y+"parser/documents.go", Y+"parser/properties.go", Y+"parser/indents.go", Y+"parser/comments.go", Y+"lexer/context.go", Y+"yamlchar/chars.go"],
     [("recursive descent over the YAML grammar with checkpoints", Y+"parser/block.go")],
     [("indentation", "columns required by the enclosing block", Y+"parser/indents.go")],
     ["tree returned by parsing"],
     "exhaustive enumeration of trees and presentations within a deviation bound through the real parser against the generating tree",
     "trees up to 4 nodes with up to 3 presentation deviations, 67 scalar texts in 12 styles, anchors, tags, streams, sizes up to 257, and all short texts both parsers accept")
prop("P05", "A text is read completely or rejected",
     "When a text is accepted, every piece of its content (keys, scalars, anchors, aliases) appears in the tree exactly once and in document order; nothing is silently dropped, repeated or moved. Texts with unbalanced or mismatched brackets, content behind a closed root collection on the same line, unterminated quotes or invalid escape sequences are always rejected.",
     ["inputs"], "every text without comments and directives",
     "loss happens in rare backtracking paths; tests compare complete trees for few inputs and hold few broken ones",
     [Y+"parser/parser.go", Y+"parser/block.go", Y+"parser/flow.go", Y+"parser/internal/balancecheck/balancecheck.go", Y+"parser/internal/deadend/finder.go", Y+"yamlchar/transformations.go"],
     [("balance check of brackets and quotes", Y+"parser/internal/balancecheck/balancecheck.go")],
     [("open brackets", "not closed yet", Y+"parser/internal/balancecheck/balancecheck.go")],
     ["tree or error returned by parsing"],
     "exhaustive enumeration of short texts through the real parser against content conservation and reference automata for brackets, quotes and escapes",
     "all texts over nine alphabets up to 5-8 pieces for conservation; brackets up to 7, quotes up to 6, escapes up to 5 pieces in several surroundings")
prop("P06", "Parses, encodings and readers do not influence each other",
     "The result of parsing, encoding or reading depends only on its own input: never on what was processed before, whether that succeeded or failed, and never on what is processed at the same time. Any number of readers of the self-made engine may read one parsed tree concurrently without changing it, and the bytes passed to a parse or returned by an encoding are not changed later; what the caller does to the passed bytes afterwards changes no result.",
     ["histories", "schedules"], "every history of successful and failing operations and every interleaving of concurrent ones",
     "parsers, buffers and accessors are pooled and reused, so an error shows only after a particular predecessor or overlap",
     [Y+"parser/parser.go", Y+"parser/token_source.go", Y+"parser/block.go", Y+"encode/builder.go", Y+"encode/writer.go", Y+"decode/reader.go", G+"encode/builder.go"],
     [("pools of buffers and accessors", Y+"parser/token_source.go")],
     [("pooled objects", "left over by earlier operations", Y+"parser/block.go")],
     ["results of parsing, encoding and reading"],
     "exhaustive enumeration of operation histories and of schedules of pairs of operations under a controlled scheduler, with a scheduling point before every statement of the real code, against each operation alone in a process of its own",
     "all histories of three of 64 operations (valid and broken parses, encodings, readings, shared trees); every operation preempted before any of its statements by a whole other operation; two preemptions at token and function granularity")
prop("P07", "What is encoded decodes to the same value, in both engines",
     "Any value built from nulls, booleans, integers, floats, strings, timestamps, sequences and mappings, encoded by either engine with any of its options, decodes to the same value with the decoding operation of its type, in either engine and in any position (root, item, key, value). Strings survive exactly, including control characters, quotes, indicators, line breaks, blanks at either end and texts that look like other types (a text spelling null is null when it is encoded without quotes on request).",
     ["inputs", "configurations"], "every value, engine, option set and position",
     "quoting decisions depend on the characters and the position of a text; tests encode a handful of friendly texts",
     [Y+"encode/builder.go", Y+"encode/writer.go", Y+"yamlchar/chars.go", Y+"yamlchar/transformations.go", G+"encode/builder.go", G+"encode/writer.go", "engines/pkg/schema/schema.go", "encode.go"],
     [("choice of scalar style when writing", Y+"encode/writer.go")],
     [("tree being built", "route of open collections", Y+"encode/builder.go")],
     ["values delivered by decoding operations"],
     "exhaustive enumeration of values, positions, engines and options through the real encoders and decoders against the original value",
     "all strings over eleven alphabets up to 3-6 pieces in all positions of a document, the Unicode characters (all of them in the thorough tier), boundary numbers and timestamps, all trees up to 5 nodes, 2x2 engine pairs and options")
prop("P08", "Building obeys the nesting protocol and reports every violation of it",
     "For every sequence of insert, start and end operations, the result is the tree those operations spell when they are well formed, and an error when they are not: an end without or against its start, an unfinished collection, a key without value, a second root, or an error handed in by the caller. Once an error has occurred it is reported by the next result whatever follows, and after the result is taken the builder starts afresh.",
     ["histories"], "every sequence of building operations, in both engines",
     "protocol violations are combinations of operations in some order; tests only spell well formed sequences",
     [Y+"encode/builder.go", G+"encode/builder.go", "encode.go"],
     [("route of open collections and pending key", Y+"encode/builder.go"), ("route of open nodes", G+"encode/builder.go")],
     [("open collections", "with pending key", Y+"encode/builder.go")],
     ["tree or error returned as result"],
     "exhaustive enumeration of building operation sequences on the real builders against a pushdown automaton model",
     "every sequence of up to 7 (quick) of 10 core operations, 5 of all 18 operations and 9 of 6 nesting operations, results taken and the builder used again, both engines")
prop("P09", "Decoding operations walk the document like a cursor",
     "Every sequence of decoding operations on a document behaves like a cursor over its nodes: an operation that fits the current node returns its value and moves on, one that does not leaves the cursor in place and records a denial, and reading past the end is an error. Collections report their size and whether items remain exactly, loops over them always end, also after errors, the first fatal error sticks, and adding no error changes nothing.",
     ["histories", "inputs"], "every document shape and every sequence of decoding operations, in both engines and with and without collecting several denials",
     "the cursor's state is the product of nesting, aliases, properties and earlier denials; generated code exercises only matching sequences",
     [Y+"decode/reader.go", Y+"decode/expected.go", Y+"decode/iterator.go", G+"decode/reader.go", G+"decode/expected.go", G+"decode/iterator.go", "decode.go"],
     [("route of visited nodes", Y+"decode/reader.go"), ("route of visited nodes", G+"decode/reader.go")],
     [("route", "nodes being read and their iterators", Y+"decode/reader.go")],
     ["values, denials, errors, collection states"],
     "exhaustive enumeration of documents and decoding operation sequences on the real readers against a cursor model",
     "all trees up to 4-5 nodes including properties and aliases, all operation sequences up to depth 4-6, both engines; an item counts as processed once it was looked at, and whether items remain between the last key and its value is left open")
prop("P10", "Scalar texts convert exactly as the YAML schema says",
     "A scalar text is a null, boolean, integer, float or timestamp exactly when its spelling is one of those the schema defines, and it converts to the value that spelling denotes: decimal, octal and hexadecimal integers with their signs, decimal floats, infinities and not-a-numbers, dates and timestamps with fractions and zones. Values outside the requested width are an error, never a truncated value, and texts of another type are denied.",
     ["inputs"], "every scalar text and every requested type and width",
     "spellings are combinatorial and limits lie at single values; tests check a few spellings per type",
     ["engines/pkg/schema/schema.go", Y+"schema/schema.go", G+"schema/schema.go", Y+"decode/expected.go", G+"decode/expected.go"],
     [("recognition by regular expressions and conversion", "engines/pkg/schema/schema.go")],
     [("scalar text", "of the current node", Y+"decode/reader.go")],
     ["values and denials of decoding operations"],
     "exhaustive enumeration of short scalar texts and boundary values through both real readers against reference recognisers",
     "all strings over four alphabets up to 5-6 characters, all sign, base and boundary combinations, all calendar field combinations of a grid")
prop("P11", "Aliases and merge keys stand for what they refer to",
     "Decoding an alias gives what decoding the closest preceding node with that anchor gives, wherever the alias stands and also when the anchored node was skipped or the anchor is defined again later; a reference to an undefined anchor or of a node to itself is an error, never an endless loop. A merge key adds the entries of the referred mappings that are not set by the mapping itself or by an earlier reference, and raw data of a subtree never refers outside of it.",
     ["inputs", "histories"], "every placement of anchors, redefinitions, aliases and merge keys and every way of reading the document",
     "resolution depends on the order of definition, redefinition and use and on what was skipped before",
     [Y+"decode/anchors.go", Y+"decode/any.go", Y+"decode/reader.go", G+"decode/reader.go", G+"decode/any.go", G+"decode/raw.go"],
     [("anchors met so far", Y+"decode/anchors.go")],
     [("anchor table", "node per anchor at a point of the document", Y+"decode/anchors.go")],
     ["values and raw data delivered by decoding"],
     "exhaustive enumeration of small documents with anchors, aliases and merge keys through both real readers against a substituting reference evaluator",
     "all trees up to 7 nodes with up to 2 anchors (redefinitions included) and 3 aliases, all merge shapes of a bounded grid, read whole, node by node, and with skipped prefixes")
prop("P12", "Both engines decode the same document to the same value",
     "For every document that both engines accept, decoding it as a whole and decoding it step by step with the same operations gives equal values, equal collection sizes and agreeing success or denial, so that switching the engine does not change the meaning of data. This includes typing of unquoted, quoted and block scalars, nulls (tagged empty nodes aside), mapping key texts, aliases, merge keys and multi-line scalars.",
     ["inputs", "configurations"], "every document accepted by both engines",
     "engines are separate implementations; tests never compare them",
     [Y+"decode/any.go", Y+"decode/expected.go", G+"decode/any.go", G+"decode/expected.go", "engines/pkg/schema/schema.go"],
     [("value extraction", Y+"decode/any.go"), ("value extraction", G+"decode/any.go")],
     [("decoded value", "Go value of the subtree", Y+"decode/any.go")],
     ["decoded values of both engines"],
     "exhaustive enumeration of documents through both real engines, compared with each other",
     "all presentations of small trees within a deviation bound, all scalar texts of the schema enumeration, all short texts over block and flow alphabets")
prop("P13", "Generated code round-trips every value of its type",
     "For every supported Go type whose fields have distinct keys and every combination of generator options and struct tags, the generated code compiles, and for every value of the type unmarshalling what it marshals gives an equal value, with either engine and across engines (a pointer to something represented by null may come back as nil; what is omitted or not represented comes back as zero). Fields appear under their keys with documents of their values, omitted fields are exactly those that are empty and marked so (by tag or option), inlined fields appear in the enclosing mapping, and marshalling does not change the value.",
     ["programs", "inputs", "configurations"], "every type built from supported kinds, every option and tag combination, every value",
     "the generator's output is a program per type; tests cover a fixed set of types and values",
     ["generator/encoder.go", "generator/decoder.go", "generator/generator.go", "generator/tags.go", "generator/engine.go", Y+"engine.go", G+"engine.go"],
     [("code templates per kind", "generator/encoder.go")],
     [("type graph", "kinds, tags and options", "generator/generator.go")],
     ["values after a round trip, text of the marshalled document"],
     "exhaustive enumeration of a bounded grammar of types, options, engines and values: real generator, compiler and generated code against value equality and a reference shape",
     "all kinds nested to depth 2-3 in struct fields, 2 engines, option sets, boundary values per kind")
prop("P14", "Generated decoders enforce the document's shape",
     "A generated decoder, started on a zero or on an already filled value, fills exactly the fields the document names, in whatever order, and leaves all others untouched; slices and maps are replaced by the document's elements; nulls give zero values in fresh values; surplus elements for arrays are skipped; and unknown fields are skipped whole or, when disallowed, reported. A document whose node does not fit the field's type (a wrong kind, an unparsable text, a number out of the type's range) is reported as an error, never stored as a different value, and never makes the decoder panic or hang.",
     ["inputs", "programs", "configurations"], "every document and every target type of the bounded grammar",
     "mismatches are combinations of field types and node kinds; tests decode fitting documents",
     ["generator/decoder.go", "generator/generator.go", Y+"decode/reader.go", G+"decode/reader.go"],
     [("field dispatch of generated decoders", "generator/decoder.go")],
     [("target value", "before and after decoding", "generator/decoder.go")],
     ["decoded values and errors"],
     "exhaustive enumeration of documents per generated type against a reference decoder over the model tree",
     "all documents of a bounded grammar (missing, extra, null, wrong kind, duplicated, reordered entries) for each generated type, engine and option set")
prop("P15", "Quoting and unquoting are inverse and follow the escape table",
     "For every text, unquoting its double-quoted form gives the text back, and so does unquoting its single-quoted form for texts without line breaks and control characters; quoted forms hold only printable characters. Unquoting resolves exactly the escape sequences of the YAML specification to the characters they name and rejects every other content, and recognition of well-formed content agrees with conversion.",
     ["inputs"], "every text and every quoted content",
     "the escape table and hexadecimal forms span the whole Unicode range",
     [Y+"yamlchar/transformations.go", Y+"yamlchar/chars.go"],
     [("escape table", Y+"yamlchar/transformations.go")],
     [("character", "under conversion", Y+"yamlchar/transformations.go")],
     ["converted texts and errors"],
     "exhaustive enumeration of all characters, all hexadecimal escapes and all short contents through the real converters against a reference automaton",
     "all 1112064 Unicode scalar values, all hexadecimal escapes, all short contents over three alphabets")
prop("P16", "Tree comparison is equality of trees",
     "Two syntax trees compare as equal exactly when they have the same structure, node kinds and texts; comparison is reflexive and symmetric, tells apart any two different trees and always returns without leaving work behind. Printing a tree without missing children shows every node of it, so different trees of one-line texts never print alike.",
     ["inputs"], "every pair of trees",
     "comparison walks both trees concurrently; only near-equal pairs reveal a missed difference",
     [Y+"ast/astcmp/comparator.go", Y+"ast/astprint/printer.go", Y+"ast/node.go"],
     [("two visitors in lock step", Y+"ast/astcmp/comparator.go")],
     [("node streams", "of both trees", Y+"ast/astcmp/comparator.go")],
     ["verdict of the comparison"],
     "exhaustive enumeration of all pairs of small trees through the real comparator against structural equality",
     "all pairs of trees up to 4-5 nodes over all node kinds including missing children")
prop("P17", "A written tree reads back as the same tree",
     "Any syntax tree with any texts, quoting, anchors, tags, aliases, empty collections, nulls, complex keys and several documents is written to a text that parses back to an equal tree. Writing to a string, to bytes and to a stream gives the same text, a writer may be reused for any number of trees, and a failing destination is reported as an error and never as success.",
     ["inputs", "fault_sequences", "histories"], "every tree, every order of writing trees with one writer, every failing or short write of the destination",
     "each combination of node kind, position and property takes a different path in the writer",
     [Y+"encode/writer.go", G+"encode/writer.go", "encode.go", Y+"ast/node.go"],
     [("indentation and style decisions of the writer", Y+"encode/writer.go")],
     [("writer state", "indentation and position", Y+"encode/writer.go")],
     ["written text, parsed tree, errors"],
     "exhaustive enumeration of trees, writer histories and write faults through the real writer and parser against the original tree",
     "all trees up to 6 nodes, all placements of two properties on trees up to 4 nodes, all strings over nine alphabets with every quoting in every position, streams of up to 3 documents, all histories of up to 3 writes with one writer, also with an anchors keeper and aliases of outer nodes, destinations failing behind every byte")
prop("P18", "Code generation is deterministic and always compiles",
     "For every supported type and option set, generating again gives the same code and the code compiles; names of fields, types and packages, tags, package paths and nested, anonymous, embedded, recursive, named and pointer types never make it emit code that does not compile. The command line tool passes every flag to the generator, finds the package however it is called (directory argument, working directory, go generate; any layout of modules), writes exactly one file, can be run again and for several types of a package in any order, and the code it writes behaves as the same options promise; calls it cannot fulfil are reported by its exit code.",
     ["programs", "configurations"], "every type of the bounded grammar and every option set",
     "the generator composes code from templates; only compiling the composition shows a broken one",
     ["generator/generator.go", "generator/encoder.go", "generator/decoder.go", "generator/parser/pkgpath.go", "generator/parser/parser.go", "generator/bootstrap/generator.go", "cmd/yamlygen/main.go"],
     [("naming of generated functions and imports", "generator/generator.go")],
     [("pending types", "still to be generated", "generator/generator.go")],
     ["generated source text"],
     "exhaustive enumeration of a bounded grammar of types and options through the real generator and compiler, and of flags, ways of calling and orders through the real command line tool",
     "all types of the grammar of P13 under the option sets, generated 5 times; all 32 flag sets, 16 ways of calling, 233 combinations of names of packages and types, all orders of 3 mutually referring types; the tool's code is run against the references of P13 and P14")

BUILT = open(os.path.join(ROOT, "tools", "built.txt")).read().split()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in BUILT:
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
            technique="model checking: " + p["technique"], level="model_checking", level_note=p["note"],
            evidence_file="evidence/%s.json" % p["id"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "the exploration for this property is not part of this revision"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Every check explores the real code of /repo (built from its working tree by run.sh) exhaustively within the bounds listed in its evidence; no hooks in /repo are needed."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
