prop("C10", "Parse errors point at the defect",
     "When parsing fails, the error names the failed construct and its message shows a line number, a column, the text of exactly that line and a caret under that column, consistent with each other and with the input for any line ending and any encoding of the rest. For a document that is well-formed up to a single broken line, the shown line is never behind the defect and never in front of the line where the broken construct begins. The same message is available for any byte offset through indicated_msg and indicated_msg_file, also beyond the end.",
     ["inputs"], "all rejected documents and all offsets of all byte strings",
     "The tests compare three error messages of short ASCII documents.",
     ["src/indicator.rs", "src/parser/error.rs", B], [("error position of the sub-parsers", B), ("line and column computation", "src/indicator.rs")],
     "the error value, its display, and the result of indicated_msg",
     "All errors were recomputed from the input by an independent line and column oracle; defects were planted on known lines.",
     "runtime monitoring: independent locator as oracle over planted defects and all offsets")

prop("C11", "Malformed documents are rejected",
     "A document that is not well-formed is an error and never a guess: unterminated or mismatched quotes, brackets and braces, missing commas, wrong indentation between the entries of a block collection, tabs as indentation, mixed sequences and maps at one level, wrapped implicit keys, a second value on one line, text behind a closed node, undefined aliases and tag handles, repeated anchors, tags and version directives.",
     ["inputs"], "all documents with one structural defect at any place of a well-formed document",
     "The tests reject a handful of short documents.",
     [M, G, B], [("terminators and separators", M), ("indentation check", B)],
     "whether parsing returns an error",
     "A well-formed generated document was accepted first, then rejected with the planted defect; leniently accepted plain texts are out of scope and listed in DESIGN.md.",
     "runtime monitoring: planted-defect workload, acceptance monitor")

prop("C12", "Accepted input is never dropped silently",
     "Whatever the parser accepts, it reads to the end: every word of an accepted document that is not part of a comment or a directive appears in the keys, values, anchors, tags or alias names of the returned nodes. Trailing garbage, skipped entries and cut scalars are errors.",
     ["inputs"], "all accepted documents, well-formed or not, as produced by arbitrary mutations",
     "The tests only look at documents where nothing should be lost.",
     [M], [("document loop", M), ("end of the collections", M)],
     "the words of the input against the words of all returned nodes, anchors and tags",
     "Unique marker words were searched in the returned trees; texts with duplicate keys are not decided.",
     "runtime monitoring: conservation monitor over mutated documents")

prop("C13", "Layout without meaning never changes the result",
     "Changes of the layout that carry no meaning leave the result equal: line endings (LF, CRLF, CR), comments at line ends and on own lines, blank lines between entries, trailing spaces, a leading `---` or trailing `...`, an unknown directive, wider indentation of whole blocks, wrapping the document into an outer sequence or map, and spaces around the separators of flow collections.",
     ["inputs"], "all well-formed documents and all combinations of these edits at every possible line",
     "The tests never compare two layouts of the same document.",
     [M, G, B], [("gaps, comments and line breaks", G), ("indentation stack", B)],
     "equality of the returned trees before and after the edit",
     "Metamorphic: edits were applied on the text of accepted documents; block scalars are kept out of edits which would change their contents.",
     "runtime monitoring: metamorphic comparison of the parse results")

prop("C14", "Dumped nodes parse back to equal nodes",
     "For every list of nodes without alias placeholders, however nested and with any scalars as items, keys and values, the dumped text parses back to an equal list of nodes, with the same kinds, values, order and tags. Dumping never loses a document, a trailing line break, a white space or any other character, and a dump of the parsed dump is the same text.",
     ["inputs"], "all nodes built from Rust values or parsed from text, with any strings, numbers, tags and nesting",
     "The tests dump a few small nodes.",
     ["src/dumper.rs"], [("layout of block collections", "src/dumper.rs"), ("choice of the scalar style", "src/dumper.rs")],
     "parse(dump(nodes)) against nodes, and dump(parse(dump(nodes))) against dump(nodes)",
     "Every generated node list was dumped, parsed and compared with the generating tree; tags that can not be written are not generated.",
     "runtime monitoring: round-trip oracle over generated nodes")

prop("C15", "Dumping with anchors keeps the identities",
     "What parse_cyclic returns can be dumped together with its anchors, and reading that text again yields the same nodes, the same placeholders and the same anchor tables, for every document of a stream; with plain parsing it yields the same values as the original text. Every anchor is defined exactly once and before its use, and an anchor of another document is never used.",
     ["inputs"], "all documents with anchors and aliases on any nodes, including self references and several documents",
     "The tests dump two documents with one anchor.",
     ["src/dumper.rs", M], [("anchors of the dumper", "src/dumper.rs"), ("cyclic mode", M)],
     "the nodes and the anchor tables of the dumped text read again",
     "All generated documents with anchors were dumped and read in both modes and compared.",
     "runtime monitoring: round-trip oracle over generated anchored documents", state=[("undefined", "anchors that are still to be defined by the dumper")])

prop("C16", "Serde data survives a round trip through nodes",
     "Any value of a serializable Rust type (structs, tuples, newtypes, unit types, all kinds of enum variants, options, sequences, maps with any keys, all integer and float widths, characters, strings) converted to a node and deserialized back is the same value, with both reference counters. The node has the documented shape: fields and map entries in order, variants as single pair maps, unit variants as their name.",
     ["inputs"], "all values of all type shapes",
     "The tests convert three structures.",
     ["src/serde/ser.rs", "src/serde/de.rs"], [("node serializer", "src/serde/ser.rs"), ("node deserializer", "src/serde/de.rs")],
     "the produced node and the value deserialized from it",
     "Random values of a family of types that covers every method of the data model; nested options and unit options are excluded (not representable).",
     "runtime monitoring: round-trip and shape oracle over generated Rust values")

prop("C17", "Serde data survives a round trip through text",
     "Any such value written by to_string and read by from_str is the same value, including strings that look like other scalars, multi-line and control characters, extreme integers and floats, and empty collections. A stream of several documents yields one value per document in order.",
     ["inputs"], "all values of all type shapes",
     "The tests write and read three structures.",
     ["src/serde/ser.rs", "src/serde/de.rs", "src/dumper.rs"], [("to_string", "src/serde/ser.rs"), ("from_str", "src/serde/de.rs")],
     "from_str(to_string(value)) against value",
     "As for C16, through the text.",
     "runtime monitoring: round-trip oracle over generated Rust values")

prop("C18", "Deserialization accepts exactly what fits the type",
     "Deserializing a node into a Rust type succeeds exactly if the node fits: integers only within the range of the type, booleans, strings, characters, floats, options, units, sequences of the right length, structs with their fields and known enum variants only. The value is exact. Otherwise it is an error, never a wrapped or default value, and the error carries the position of the offending node.",
     ["inputs"], "all pairs of a node and a target type, at any depth of a document",
     "The tests deserialize a few nodes into strings, characters and floats.",
     ["src/serde/de.rs", "src/serde/error.rs"], [("node deserializer", "src/serde/de.rs"), ("error position", "src/serde/error.rs")],
     "result, value, and position of the error",
     "A reference table decides for each target type and node; values are placed at random paths of generated documents.",
     "runtime monitoring: reference acceptance model over generated nodes and documents")

prop("C19", "Equality, hashing and map lookup agree",
     "Node equality is an equivalence that compares content only (not position, tag or sharing), with integers (of up to 128 bits) compared by value in any notation, floats by value, and different kinds never equal. Equal nodes have equal hashes, and in a map each key is found by every equal node and by no other, keeps its order of insertion, and a repeated key replaces the value.",
     ["inputs"], "all pairs and triples of nodes, all maps and key sequences",
     "The tests compare a few literal nodes.",
     ["src/yaml.rs", "src/node.rs"], [("equality and hashing of the data", "src/yaml.rs"), ("map type", "src/yaml.rs")],
     "results of ==, hash and map lookups",
     "Compared with the reference equality on generated trees with many near-equal scalars; the order of map entries is significant, as the map type defines.",
     "runtime monitoring: reference equality model over generated node pairs")

prop("C20", "Accessors return the content or the position",
     "Every accessor (is_null, as_bool, as_int, as_float, as_number, as_str, as_value, as_seq, as_map, as_anchor, get, get_default, get_ind and the index operators) returns exactly the content of the node when the kind fits and otherwise the position of the node, for every kind, every key and every index; indexing panics exactly where the checked access fails, and no accessor changes the node.",
     ["inputs"], "all nodes with all accessors and arguments",
     "The tests access a few entries of one document.",
     ["src/node.rs", "src/yaml.rs"], [("accessors", "src/node.rs"), ("integer texts", "src/yaml.rs")],
     "results of the accessors",
     "Compared with the reference tree on generated nodes.",
     "runtime monitoring: reference accessor model over generated nodes")

prop("C21", "All reference counters give the same results",
     "Parsing, dumping, comparing, converting and the errors do not depend on the representation: Rc, Arc and a user-defined representation give identical trees, positions, tags, anchors, dumps and errors for every input.",
     ["inputs"], "all documents, accepted or not, and all nodes",
     "The tests use one representation at a time.",
     ["src/repr.rs", M, "src/serde/ser.rs"], [("representations", "src/repr.rs")],
     "results of the same operation with three representations",
     "Differential over rendered and mutated documents.",
     "runtime monitoring: differential monitor between three representations")

prop("C22", "Arc nodes can be shared between threads",
     "Nodes with the atomic representation can be cloned, read, looked up, compared, hashed, dumped, serialized, changed through set_yaml on private clones, and dropped by any number of threads at the same time: no data race, every reader sees the unchanged content, changes stay private, and the data is freed exactly once after the last owner.",
     ["schedules", "histories"], "all interleavings of these operations on shared nodes",
     "The tests are single-threaded.",
     ["src/repr.rs", "src/node.rs", "src/yaml.rs"], [("reference counting", "src/repr.rs"), ("copy on set", "src/node.rs")],
     "reports of the race detector and per-thread comparison with the reference tree",
     "Explored interleavings of stress runs under ThreadSanitizer and randomised schedules of the interpreter; content checks in each thread.",
     "runtime monitoring: ThreadSanitizer and Miri over multi-threaded stress, per-thread content oracle")

prop("C23", "No memory errors, leaks or hidden copies",
     "Using the crate never causes undefined behaviour or reads freed memory, and all memory is released when the nodes, loaders, errors and serde values are dropped, also on failing paths and with anchors and cyclic documents. Nodes are conserved: the number of live representation objects equals what the reachable tree holds, aliases and clones share their object, and each object is dropped exactly once.",
     ["inputs", "histories"], "all documents and all histories of cloning, changing and dropping nodes",
     "The tests do not look at memory.",
     [M, "src/node.rs", "src/yaml.rs", "src/repr.rs"], [("shared nodes and anchors", M), ("linked hash map", "src/yaml.rs")],
     "live bytes and allocations of the thread, live objects of a monitoring representation, sanitizer reports",
     "Conservation was checked for every explored history; AddressSanitizer, LeakSanitizer and Miri watched a part of the workload.",
     "runtime monitoring: counting representation, allocation monitor, AddressSanitizer, LeakSanitizer and Miri")

prop("C24", "Sub-parsers match a prefix or restore the cursor",
     "Every public sub-parser called at a checkpoint (behind forward()) either matches, leaving the cursor behind the matched bytes, never beyond the end and never in front of its start, with text() being exactly the bytes since the checkpoint, or mismatches and leaves the cursor at the checkpoint, so that another sub-parser can be tried; a sub-parser of the loader might have eaten spaces, line breaks and comments then. Combinators (take_while, count, context, sym_seq) match exactly the bytes their arguments describe.",
     ["inputs", "histories"], "all byte strings, start offsets, and sequences of sub-parser calls",
     "The tests call a few sub-parsers on matching inputs.",
     [B, G], [("cursor operations", B), ("low level grammar", G)],
     "cursor, checkpoint, text and result after every call",
     "Checked online after every call of random call sequences; exact languages are decided for the combinators and character-level sub-parsers.",
     "runtime monitoring: online cursor monitor and reference matchers over random call sequences")

prop("C25", "InlineList, Optional and Stringify keep their contracts",
     "InlineList reads a list as its items and a single value as one item, with consistent len, is_empty, is_single, iter and into_iter; Optional calls the right function with the custom, the default or no value for every variant; Stringify keeps booleans, integers, floats and strings and displays their text. All of them survive serialization through nodes and text.",
     ["inputs"], "all nodes and values read into these types",
     "The documentation examples read two or three values of each type.",
     ["src/serde/inline_list.rs", "src/serde/optional.rs", "src/serde/stringify.rs"], [("untagged wrappers", "src/serde/inline_list.rs")],
     "the deserialized value, its accessors and its round trip",
     "Compared with direct models on generated values.",
     "runtime monitoring: reference models over generated values")

prop("C26", "Rust values convert to the literal YAML data",
     "Converting a Rust value into a node (From and Into, collecting iterators, and the node! macro in its Rc and Arc forms) yields the kind and the exact value that was written: every integer type over its whole range, floats, booleans, characters, strings, unit, sequences and maps in order, with position zero and the default tag, and the number reads back equal.",
     ["inputs"], "all values of the convertible types and nestings of them",
     "The tests convert a few literals.",
     ["src/yaml.rs", "src/node.rs", "src/lib.rs"], [("conversions", "src/yaml.rs"), ("node! macro", "src/lib.rs")],
     "the content of the node, its accessors, its position and tag",
     "Compared with the reference tree built from the same values.",
     "runtime monitoring: reference model over generated values and boundary values of every type")

prop("C27", "Nodes work with other serde formats",
     "A node is a serde value of its own: written by another serializer it is the same data, read from another deserializer it is the node of the data (all integer widths, floats, strings, nesting, order), and converting a node to a node is the identity. Aliases and numbers that do not fit are errors.",
     ["inputs"], "all nodes without aliases and all data of other formats",
     "The tests do not use another format.",
     ["src/serde/ser_node.rs", "src/serde/de.rs"], [("Serialize for Node", "src/serde/ser_node.rs"), ("Deserialize for Node", "src/serde/de.rs")],
     "the JSON value and the node on both sides of the conversion",
     "Compared with serde_json on generated trees with string keys, and with the identity for all trees.",
     "runtime monitoring: differential monitor against serde_json")

prop("C28", "Derived serde types read documents as their data",
     "Reading a document by from_str into Rust types gives what the document says, independent of the presentation: the order of the fields, styles, comments, aliases and the other documents do not matter, unknown fields are ignored, defaults fill missing fields, and a missing field, an unknown variant or a parse failure is an error.",
     ["inputs"], "all documents of typed data in all presentations",
     "The tests read three documents.",
     ["src/serde/de.rs", M], [("from_str", "src/serde/de.rs"), ("map and sequence access", "src/serde/de.rs")],
     "the deserialized value",
     "Random typed data was rendered in random presentations, shuffled and read back.",
     "runtime monitoring: reference data oracle over rendered typed documents")

prop("C29", "JSON documents are read as JSON",
     "Every JSON text, compact or pretty printed with any JSON white space, is read as the same data a JSON parser reads: strings with all escapes including surrogate pairs, numbers, literals, empty and nested arrays and objects in order.",
     ["inputs"], "all JSON texts with unique keys and unpadded nesting up to the depth limit",
     "The tests read one JSON document.",
     [M, G], [("flow collections", M), ("quoted strings and numbers", G)],
     "the returned node against the data of serde_json",
     "Differential against serde_json and against the generating tree; tabs are generated only between tokens inside of collections.",
     "runtime monitoring: differential monitor against serde_json and the generating tree")
