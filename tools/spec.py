#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note, technique, state=()):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b) for a, b in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=[observe], hook_needed=None)), note, technique))


G, M, B = "src/parser/base/grammar.rs", "src/parser/mod.rs", "src/parser/base/mod.rs"

prop("C01", "Parsing never panics, crashes, hangs or explodes",
     "Reading any text (or any bytes through the loader), in the plain and in the cyclic mode, returns either nodes or an error: it never panics, never overflows a 2 MiB stack however deep the input nests, and always terminates. The time and the memory that are used stay proportional to the length of the input for every kind of repeated or nested construct, and dumping, comparing, hashing and dropping the returned nodes do not crash either. Bytes which are not UTF-8 are read as replacement characters, and every text that is returned is valid UTF-8.",
     ["inputs"], "all texts and byte strings, including random token soup, truncated, spliced and mutated documents, very long tokens and very deep nesting",
     "The tests parse some twenty well-formed documents and a handful of short broken ones.",
     [M, G, B], [("the backtracking sub-parsers and the depth limit of nested nodes", M), ("cursor arithmetic", B)],
     "results, panics, signals and CPU time of the worker process; allocation counters of the thread",
     "No panic, signal, non-termination (CPU-time watchdog per case) or super-linear growth of work was observed on the explored inputs; the growth limits are an order of magnitude above the observed values.",
     "runtime monitoring: panic/signal/CPU-time monitors and allocation counters over hostile, mutated and scaled inputs")

prop("C02", "Parsed structure is exactly the written structure",
     "For every well-formed document of the supported language, parsing returns exactly the tree that was written: the same sequences and maps with the same entries in the same order, whatever mixture of block and flow style, compact or indented collections, implicit or explicit keys, empty values, wrapped lines and scalar styles it is written in. No well-formed document is rejected.",
     ["inputs"], "all trees of scalars, sequences and maps (nested, empty, with scalar and collection keys) in all mixtures of presentation styles",
     "The tests fix about twenty documents; combinations of styles, indentation widths, nesting and neighbours grow without bound.",
     [M, G, B], [("block and flow collections", M), ("indentation stack", B)],
     "the node tree returned by parsing, compared with the generating tree",
     "Every generated document was parsed and the whole tree compared with the tree the independent reference renderer wrote.",
     "runtime monitoring: reference-renderer oracle over generated documents")

prop("C03", "Plain scalars resolve by the core schema, text otherwise",
     "An unquoted one-line scalar becomes null, a boolean, an integer (decimal, 0x, 0o) or a float exactly when its whole text has the form the YAML core schema gives to that kind, with that value; every other text stays a string with exactly these characters. This does not depend on where the scalar stands (root, sequence item, map key or value, inside of flow collections, before a comment).",
     ["inputs"], "all one-line plain texts, at all places of a document",
     "The tests read a few numbers and words at one or two places; near misses such as `1e`, `0x`, `1.5.2`, `nulls` and every place are out of their reach.",
     [M, G], [("resolution of plain scalars", M), ("number, float and plain string sub-parsers", G)],
     "kind, value and default tag of the scalar in the returned tree",
     "Exhaustive for short texts over the number alphabet and for one-edit variants of all schema words, random beyond; texts with a leading `+` or `.digit` are not decided.",
     "runtime monitoring: independent core-schema resolver as oracle, enumerated and random texts")

prop("C04", "Quoted scalars decode to exactly the written characters",
     "A single- or double-quoted scalar, at any place and wrapped over any number of lines, becomes the string its characters spell: doubled quotes, all escapes (including 2, 4 and 8 digit code points and surrogate pairs), folded line breaks, blank lines, trimmed blanks around line breaks and escaped line breaks are decoded as YAML defines them. It is always a string, whatever its text looks like.",
     ["inputs"], "all sequences of text, blanks, escapes, quotes and line breaks in both quote styles at all places",
     "The tests decode a few strings of each style; interactions of neighbouring escapes, blanks and breaks are not sampled.",
     [G, M], [("quoted string sub-parser", G), ("escape decoding", G)],
     "the string value in the returned tree",
     "Every generated source was decoded by the token model as well; a break directly behind a \\n escape is not generated (documented manual wrapping).",
     "runtime monitoring: token-level decoder as oracle over generated quoted scalars")

prop("C05", "Block scalars keep their lines and their chomping",
     "A literal block scalar becomes exactly its lines without the common indentation, a folded one joins adjacent lines by a space and keeps blank lines as line breaks; the strip, clip and keep indicators decide only the trailing line breaks. This holds at every place, for any indentation width, line ending, leading, inner and trailing blank lines, a comment in the header, at the end of the input and in front of following nodes, and nothing of the neighbours is swallowed.",
     ["inputs"], "all block scalars of text lines and blank lines, at all places and indentation widths, with LF, CRLF and CR line endings",
     "The tests read a few block scalars at fixed places.",
     [G], [("literal, folded and chomping sub-parsers", G)],
     "the string value in the returned tree",
     "Every generated block scalar was decoded by the line model as well; more-indented folded lines and indentation indicators are outside.",
     "runtime monitoring: line-level decoder as oracle over generated block scalars")

prop("C06", "Aliases stand for their anchored node",
     "In plain parsing every alias stands for the value of the node that carries the anchor in the same document, shared with it and not copied; an alias without an earlier anchor and an anchor defined twice are errors. In cyclic parsing aliases stay as named placeholders, forward and self references are allowed, and the recorded anchors of each document are exactly the anchored nodes by name.",
     ["inputs"], "all documents with anchors on any nodes and aliases as items, values and keys",
     "The tests use one or two anchors in one document.",
     [M], [("anchor table of the loader", M), ("alias resolution in scalar terminals", M)],
     "the returned tree, pointer identity of shared values, and the returned anchor tables",
     "Values, sharing and anchor tables were compared with a reference resolution of the generating tree.",
     "runtime monitoring: reference alias resolution as oracle over generated documents", state=[("anchors", "per document table of the anchored nodes")])

prop("C07", "Documents of a stream are independent and complete",
     "A stream of documents separated by `---` (and ended by `...`) yields exactly one node per document in order, each equal to what the document yields alone: contents, anchors, indentation and markers of one document never influence another one. Empty documents are null.",
     ["inputs", "histories"], "all streams of documents in any styles, with directives, comments, end markers, empty documents and reused anchor names",
     "The tests parse two-document streams of one shape.",
     [M, B], [("document loop and markers", M), ("indentation stack between documents", B)],
     "number, order and contents of the returned nodes",
     "Generated streams were compared with the generating trees and with the same documents parsed alone.",
     "runtime monitoring: reference trees and alone-versus-stream comparison over generated streams")

prop("C08", "Tags resolve through the declared handles",
     "The tag of a node is exactly the written one: `!name`, `!!name` and `!handle!name` are prefixed by what the `%TAG` directives of the stream declare (or by the default prefixes), `!<...>` is taken as is, and a node without a tag reports the core-schema tag of its kind. A handle that is not declared is an error, and tags never change the value.",
     ["inputs"], "all documents with tags in any form on any nodes, and all combinations of declared handles",
     "The tests check single tags under one directive.",
     [G, "src/parser/base/directive.rs", "src/node.rs"], [("tag sub-parser", G), ("directives", "src/parser/base/directive.rs"), ("default tags", "src/node.rs")],
     "the tag of every node of the returned tree",
     "All nodes of the generated documents were compared with the reference tags.",
     "runtime monitoring: reference tag resolution as oracle over generated documents")

prop("C09", "Every node reports its own position",
     "The position of a parsed node is the byte offset in the source where its content starts, behind its anchor and tag, for every node that starts on the line of its indicator; a node that starts on a later line is reported between its indicator and its content. This holds in every document of a stream, with multi-byte characters and any line endings.",
     ["inputs"], "all documents of the supported language",
     "The tests assert a few positions of ASCII documents.",
     [M, B], [("position of scalar nodes", M), ("consumed bytes and cursor", B)],
     "the position of every node of the returned tree",
     "The renderer knows the offset of every node it writes; all were compared.",
     "runtime monitoring: offsets recorded by the reference renderer as oracle")

exec(open(os.path.join(ROOT, "tools/spec_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools/spec_more.py")) else None

NOT = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
done = set(open(os.path.join(ROOT, "tools/claimed.txt")).read().split())
checks = []
for p, note, tech in P:
    i = p["id"]
    if i not in done:
        NOT.append(dict(property=i, reason="the check is not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                       technique=tech, level="exploration", level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
