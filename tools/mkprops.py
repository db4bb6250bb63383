#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LSP = "tools/kdl-lsp/src/main.rs"

p("L01", "Language server answers every request exactly once, on stdout only",
  "Whatever the chunking and timing of its input, and however slowly its output is read, the kdl-lsp server answers every request it receives with exactly one response carrying that request's id (an error response for an unknown method, invalid parameters, a cancelled request or one sent before initialize or after shutdown), and never responds to a notification. Everything it puts on standard output is a well-formed Content-Length frame holding one JSON-RPC message; logging and other text never reach standard output.",
  ["schedules", "histories", "fault_sequences"],
  "every client message stream, every split of it into reads, every interleaving of request handling with reads and writes, every stall of the output pipe, cancellation and wake-up order",
  "The repository has no test that runs kdl-lsp at all; reply matching depends on the order in which concurrent handlers, the reader and the writer are scheduled.",
  [LSP], [("Server::new(stdin, stdout, socket).serve(service)", LSP + " main"), ("tracing subscriber directed to stderr", LSP + " main"), ("capabilities returned by initialize", LSP + " initialize")],
  ["the server's standard output, frame by frame", "the real file descriptor 1 of the process"])

p("L02", "Pull diagnostics are computed from the document's latest text",
  "A textDocument/diagnostic report describes the text the document has after all the open, change, save and close notifications for that URI that precede the request (or a later one that the server has also already received), never an older text and never another document's; several changes in one notification apply in order and the last full text wins, and a closed or never-opened document reports no problems. The report has no items exactly when the KDL parser accepts that text, and otherwise one item per parser diagnostic with its message, severity, and start and end position counted in UTF-16 code units with lines ended only by LF, CRLF or CR, whatever characters the text contains.",
  ["schedules", "histories", "inputs"],
  "every history of document notifications and diagnostic requests over several URIs, every chunking and interleaving, every document text",
  "No existing test covers the language server; freshness depends on the interleaving of concurrently handled messages, and position mapping on arbitrary text.",
  [LSP, "src/document.rs", "src/error.rs", "src/v2_parser.rs"],
  [("DashMap document_map keyed by URI", LSP), ("on_change / did_open / did_change / did_save / did_close", LSP), ("byte_to_position", LSP), ("max_level / parse of the rope's text", LSP + " diagnostic")],
  ["textDocument/diagnostic responses on standard output"],
  [("document_map", "current text per URI", LSP)])

p("L03", "Language server stays alive and makes progress",
  "No sequence of well-formed messages, document contents, read chunking, output stalls or cancellations makes kdl-lsp panic, abort, deadlock, spin or stop answering while its client keeps the connection open. Once the client reads its output again, every message already delivered is handled within a bounded number of scheduler steps, without further input being needed. Malformed bytes, an end of input inside a frame, or a closed output pipe may end the server but only cleanly: no panic and no hang.",
  ["schedules", "fault_sequences", "histories"],
  "every message history and document text, every fault (torn frame, garbage bytes, end of input, broken output pipe, output stall) at every point, every task schedule",
  "No existing test runs the server; deadlock, lost wake-up and panics on particular histories only appear under particular schedules and faults.",
  [LSP], [("panic-free handlers", LSP), ("lock scope of document_map guards", LSP), ("stdin/stdout wiring", LSP + " main")],
  ["process exit status and stderr", "task quiescence with undelivered output", "responses after stalls end"])

p("L04", "Language server honours the LSP lifecycle",
  "kdl-lsp accepts initialize exactly once, as its first request, and its result announces what it serves: full-text document synchronisation and pull diagnostics. Requests before that are refused with ServerNotInitialized and those after shutdown with InvalidRequest, document state and diagnostics keep working between, shutdown itself is answered, and after exit or the end of input the process terminates within a bounded number of steps with nothing left unanswered from before the shutdown.",
  ["histories", "schedules", "crash_points"],
  "every placement of initialize, initialized, shutdown, exit, end of input or connection loss in a message history, under every schedule",
  "No existing test drives the lifecycle; termination and refusal depend on where in the interleaving the transition falls.",
  [LSP], [("initialize / initialized / shutdown handlers", LSP), ("ServerCapabilities (text_document_sync FULL, diagnostic_provider)", LSP + " initialize")],
  ["initialize result", "error codes", "termination of the simulated process"])

p("C01", "Concurrent and earlier uses of the library do not affect a call's result",
  "Parsing, printing, formatting, editing, and serde reading or writing give each thread exactly the result the same call gives when it is the first and only one in a fresh process, no matter which other calls run at the same time in other threads or ran, failed or panicked before. Threads may read, print, clone and compare one shared document at the same time, and always see its one unchanging content.",
  ["schedules", "histories"],
  "every interleaving of library calls on several threads, and every sequence of earlier calls in the process, including failed and panicking ones",
  "The existing tests run each call on its own and never compare it with a run under contention or after other calls; hidden shared state shows only under particular interleavings or histories.",
  ["src/lib.rs", "src/document.rs", "src/node.rs", "src/v2_parser.rs", "src/de.rs", "src/se.rs"],
  [("no global or thread-local mutable state", "src/"), ("Arc<String> shared source in errors", "src/error.rs")],
  ["results and printed bytes of each call, compared with a fresh-process run of the same call"])

p("W01", "Printing into a failing writer is honest and harmless",
  "When the destination a document, node, entry, identifier, value or error is printed to fails or panics at any point, printing stops at once and reports that failure (or lets the panic through), and what the writer had accepted until then is an exact prefix of the normal printed text. The object is unchanged, and printing it again, to any writer and however the writer splits the work, gives the normal text in full.",
  ["fault_sequences", "crash_points", "histories"],
  "every printable object and every point at which the writer can fail, panic, or run another library call re-entrantly",
  "The existing tests only print into strings, which never fail.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/value.rs", "src/error.rs"],
  [("write!(..)? propagation in Display impls", "src/node.rs stringify, src/entry.rs fmt, src/value.rs write_string, src/document.rs stringify")],
  ["bytes accepted by the writer, the returned fmt::Result, calls after the failure"])

p("S01", "Serializing fails cleanly when a user's type fails part-way",
  "If any value being serialized reports an error or panics at any point of its Serialize implementation, the serialization as a whole fails with that very error message (or lets the panic through) and returns no document or partial text. It calls on into the value no further after the failure, and later serializations in the same process give exactly what they give without the failure.",
  ["fault_sequences", "crash_points", "histories"],
  "every shape of value, every call at which the user's implementation can fail or panic, every history of earlier failures",
  "The existing tests serialize types that do not fail.",
  ["src/se.rs"], [("error propagation through the Serializer and Serialize* implementations", "src/se.rs"), ("Error::custom", "src/se.rs")],
  ["returned Result, calls made into the user's type after its failure"])

p("S02", "Deserializing fails cleanly when a user's type refuses part-way",
  "If the type being deserialized returns an error or panics at any point while it is being built, deserialization stops there and fails with that message (or lets the panic through), and no further part of the type is built afterwards. Deserializing the same text again without the fault gives the same value as if the failure had never happened.",
  ["fault_sequences", "crash_points", "histories"],
  "every text and target type, every callback at which the target type can fail or panic, every history of earlier failures",
  "The existing tests deserialize types that do not fail of themselves.",
  ["src/de.rs"], [("error propagation through Deserializer, SeqAccess, MapAccess and EnumAccess", "src/de.rs"), ("Error::custom", "src/de.rs")],
  ["returned Result, callbacks made after the failure"])

p("S03", "A stored serde value survives saving, crash and reload",
  "A value of any supported shape that was serialized to KDL and stored reads back equal after a restart: structs, nested structs, maps (in their order), sequences, options, enums, tuples, integers of up to 64 bits, floating-point numbers, strings with any characters, booleans and units. If the stored text was cut or damaged, reading it back gives an error or some well-typed value, never a panic or a hang.",
  ["inputs", "crash_points", "histories"],
  "every value of the supported shapes, every history of stores and restarts, every truncation or corruption of the stored text",
  "The existing tests round-trip a few hand-written values and never damaged text.",
  ["src/se.rs", "src/de.rs", "src/value.rs", "src/v2_parser.rs"], [("to_string / to_document", "src/se.rs"), ("from_str / from_document", "src/de.rs"), ("string escaping when printing", "src/value.rs")],
  ["the value read back, compared with the value stored"])

p("D01", "Loading a torn or damaged file never crashes and always explains itself",
  "Parsing whatever a crash or faulty disk left of a KDL file (cut short, blocks lost, duplicated, reordered or overwritten, bytes changed) returns without panicking: either a document or an error. An error carries the complete text it was given and at least one error diagnostic, and every diagnostic's span lies inside that text on character boundaries, with a report (labels, help, severity, source) that says the same; the same holds for parsing a single node, entry or identifier.",
  ["fault_sequences", "crash_points", "inputs"],
  "every file content and every truncation, lost or misplaced block, bit flip and combination of them",
  "The existing tests load files that are intact or damaged in a handful of fixed ways.",
  ["src/v2_parser.rs", "src/document.rs", "src/error.rs"], [("try_parse and error recovery", "src/v2_parser.rs"), ("KdlError / KdlDiagnostic", "src/error.rs"), ("v1 fallback", "src/document.rs parse")],
  ["the Result of parse, diagnostics, spans"])

p("D02", "A file that loads is printed back byte for byte",
  "If a file's text, intact or damaged, is accepted as a KDL 2 document, printing the unmodified document gives back exactly that text, including all whitespace, comments, line endings, byte order mark, slashdashed parts, number and string notation, terminators and escapes. Saving it and loading it again is then a no-op, however often it is repeated.",
  ["inputs", "fault_sequences", "histories"],
  "every text the parser accepts, in particular those left by damage that happen to remain valid, and every chain of load and save",
  "The existing tests check a fixed corpus; the guarantee is for every accepted text.",
  ["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/entry.rs"], [("format fields captured while parsing", "src/v2_parser.rs"), ("Display / stringify", "src/document.rs, src/node.rs, src/entry.rs")],
  ["to_string() of the parsed document compared with the input"])

p("D03", "Every acknowledged edit survives save, crash and reload",
  "After any history of edits through the document API (adding, replacing, removing, moving, renaming nodes; arguments and properties; values, type annotations and children blocks), the saved text loads again after a restart and the loaded document has exactly the nodes, names, types, entries, values and children that the edits produced, in order. Lookups by name or index always agree with that content: the first node of a name, the n-th argument, and the last property of a name.",
  ["histories", "crash_points", "inputs"],
  "every starting document, every history of edits, saves, crashes and reloads",
  "The existing tests perform a few fixed edits and do not compare with a model of what the edits should have produced.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/value.rs"], [("insert / remove / push / entry / get families", "src/node.rs, src/document.rs"), ("value and identifier printing", "src/value.rs, src/identifier.rs"), ("value_repr and repr kept in step with values", "src/entry.rs, src/identifier.rs")],
  ["reloaded documents compared with a reference tree", "lookup results"])

p("D04", "Edits leave all other text untouched",
  "An edit through the document API changes only the printed text of the thing edited: everything printed before and after it, including comments, spacing, notation and line endings of all other nodes and entries, stays byte for byte the same. This holds at every step of any history of edits, saves and reloads.",
  ["histories", "inputs"],
  "every starting document, every history of edits",
  "The existing tests check a few fixed edits on a few documents.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("format kept per node, entry and identifier", "src/node.rs, src/entry.rs, src/identifier.rs, src/document.rs")],
  ["printed text before and after each edit"])

p("D05", "Reformatting never changes what a document says",
  "At any point in a history of edits, saves and reloads, autoformatting (with any indentation, with or without removing comments), clearing formats or converting to KDL 2 form leaves every node, name, type annotation, entry, value and child as it was, in order. The result still loads after a restart, with that same content.",
  ["histories", "configurations", "inputs"],
  "every document and every history of edits mixed with formatting operations under every configuration",
  "The existing tests format a few fixed documents.",
  ["src/fmt.rs", "src/document.rs", "src/node.rs", "src/entry.rs"], [("autoformat_config / clear_format(_recursive) / ensure_v2", "src/document.rs, src/node.rs, src/entry.rs"), ("autoformat_leading / autoformat_trailing", "src/fmt.rs")],
  ["content of the document after formatting and after reload"])

p("D06", "Loading, printing and reporting take bounded work",
  "The work of loading a KDL 2 file, printing it, reformatting it or reading it with serde grows about linearly with its length and the length of what is written, and the work of refusing a damaged file, or of turning its errors into language-server diagnostics, at most with the square of its length; the number of diagnostics is proportional to the length. Neither nesting, repetition, slashdashes nor the number of errors makes it exponential, so a repetitive or damaged file of a few kilobytes never makes the library or the language server hang. (Work that the KDL 1 fallback spends on a text refused as KDL 2 is not part of this.)",
  ["inputs", "fault_sequences"],
  "every repetition and nesting of text fragments and every damage to them",
  "The existing tests use small inputs and measure no work.",
  ["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/fmt.rs", "src/de.rs", LSP], [("no unbounded re-parsing of the same text", "src/v2_parser.rs nodes / base_node / before_node_children"), ("one pass over the tree to print, format or convert", "src/document.rs, src/node.rs")],
  ["branches taken and memory asked for as the size grows", "diagnostics per load"])

p("W02", "A panicking or misbehaving callback cannot corrupt a document",
  "If a closure given to the entry-filtering and entry-sorting operations panics at any call, the document afterwards still holds only original entries, each at most once (all of them, when sorting), and prints, loads and can be edited as usual. Without a panic, filtering keeps exactly the accepted entries in order, calling the closure once per entry, and sorting is stable.",
  ["crash_points", "histories"],
  "every node, every closure behaviour, a panic at every call of the closure",
  "The existing tests use well-behaved closures on one fixed node.",
  ["src/node.rs"], [("retain / sort_by / sort_by_key", "src/node.rs")],
  ["entries after the call, printed text"])

# ---- properties this family does not decide -------------------------------------
p("D07", "Formatting settles, has the asked-for shape, and keeps comments",
  "At any point of an editing history, autoformatting a document leaves every node on a line of its own, indented by the configured indentation times its depth plus the configured level, its entries and children separated by single spaces (save for comments, and for entries kept as they are by configuration or by their own mark), its closing braces indented likewise, and no comment anywhere when comments are to be removed. Unless they are, the comments and slashdashed parts before, between, at the end of and behind lines, between entries and before children are all kept, in order. Autoformatting a document or node again in the same way changes nothing, nor does autoformatting a loaded document again after it was formatted, saved and reloaded; a document edited in between settles with the second reload.",
  ["histories", "inputs", "crash_points"],
  "every starting document, every history of edits, formatting, saves, crashes and reloads, every formatting configuration",
  "The existing tests format a few documents once, with five fixed results.",
  ["src/fmt.rs", "src/document.rs", "src/node.rs", "src/entry.rs"], [("autoformat_leading / autoformat_trailing / autoformat_between", "src/fmt.rs"), ("autoformat_config", "src/document.rs, src/node.rs"), ("autoformat, keep_format", "src/entry.rs")],
  ["the printed text after formatting, after formatting again, and after reloads in between; the format fields"])

p("D08", "Migrating between KDL 1 and KDL 2 never changes what a document says",
  "However a document is converted between KDL 1 and KDL 2, as text (v1_to_v2, v2_to_v1) or in memory (ensure_v1, ensure_v2), and whatever edits, reformattings, saves, crashes and reloads lie between the conversions, the result loads as the version it was converted to and holds the same nodes, in the same order, with the same names, types, entries, values and children; and a KDL 1 file that is loaded and not touched prints as it was, but for a newline that ends it. Only a number for which the KDL 1 parser has no room may be refused, and only infinities and not-a-number, which KDL 1 does not have, may become the nearest finite value; parts commented out by a slashdash are kept as they are written.",
  ["histories", "inputs", "crash_points"],
  "every file of either version, every history of edits, conversions, formatting, saves, crashes and reloads",
  "The existing tests convert three fixed documents once.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"], [("v1_to_v2, v2_to_v1, ensure_v1, ensure_v2, parse_v1", "src/document.rs"), ("From<kdlv1::...>, split_v1_trailing, ensure_v1, ensure_v2", "src/node.rs, src/entry.rs"), ("v1_space, v2_space", "src/fmt.rs")],
  ["the converted text as the library reads it in the asked-for version; the document's content in memory"])

p("D09", "A stored text loads exactly if it is KDL 2.0.0, and means what KDL says it means",
  "Whatever crashes, bad disks and other writers left of a file, KdlDocument::parse_v2 accepts the text if and only if the KDL 2.0.0 grammar does, and the nodes, names, types, entries, values and children it holds then are the ones the specification assigns; a text that is exactly one node, entry or string is accepted by KdlNode::parse, KdlEntry::parse or KdlIdentifier::parse with the same meaning, and prints as it was. Nothing is said of: integers beyond 128 bits and floats beyond the range of 64 bits, disallowed code points inside comments, upper-case radix prefixes, a slashdashed block that no space precedes, and a raw string's closing quotes in the middle of a line.",
  ["inputs", "crash_points", "faults"],
  "every text, and every intact, torn, truncated, corrupted or foreign content of a file",
  "The conformance corpus is a finite sample of 300 intact texts.",
  ["src/v2_parser.rs"], [("document, nodes, base_node, node_entry", "src/v2_parser.rs"), ("string, quoted_string, raw_string, identifier_string, number, keyword", "src/v2_parser.rs"), ("ws, line_space, escline, slashdash, comments", "src/v2_parser.rs")],
  ["accepted or refused; the loaded document's nodes, names, types, entries, values and children"])
p("D10", "Spans of a loaded file are the places of its pieces in the text",
  "Whatever crashes and bad disks left of a file, once a document was loaded from it with KdlDocument::parse or parse_v2, the span of every identifier (node name, type, property name) is exactly that identifier's text; the span of every entry its text from its type or name to its value; the span of every node its text from its type or name through the space before its terminator; the span of every non-empty document from its first node's start to its last node's end. Spans lie inside the text and on character boundaries, those of parts within those of their wholes, those of siblings in order and apart. For a file loaded by the KDL 1 fallback the same holds of identifiers and of how spans lie.",
  ["inputs", "crash_points", "faults"],
  "every text, and every intact, torn, truncated or corrupted content of a file",
  "The tests check spans of one fixed document.",
  ["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("span_from_checkpoint, with_span", "src/v2_parser.rs"), ("From<kdlv1::...>", "src/document.rs, src/node.rs, src/entry.rs, src/identifier.rs")],
  ["span() of documents, nodes, entries and identifiers"])
p("D11", "Equality and hashes tell the states of an editing history apart and nothing else",
  "At every point of every history of edits, formatting, saves, crashes and reloads, documents, nodes, entries and identifiers that compare equal hold the same content (floats as equality documents them: NaN as zero, infinities as the largest floats), print the same text and hash equally, however and wherever they came about; equality is symmetric; values, and pieces built around them by the same calls, are equal exactly if they say the same, and values are ordered in agreement with that; a clone equals its original, and a snapshot is not changed by later edits; a text loaded twice gives equal documents, and nodes do not change by standing further down in a text.",
  ["histories", "inputs", "crash_points"],
  "every history of edits, formatting, saves, crashes and reloads of every file",
  "The tests compare a few pairs of fixed documents, and no hashes.",
  ["src/value.rs", "src/entry.rs", "src/node.rs", "src/document.rs", "src/identifier.rs"], [("PartialEq, PartialOrd, Hash", "src/value.rs, src/entry.rs, src/node.rs, src/document.rs, src/identifier.rs")],
  ["==, Hash, Clone, Display of every state and its parts"])

p("S04", "A refused value is blamed on its place in the file",
  "Whenever a type refuses a number, string, written boolean or variant name that deserialization hands to it (wrong type, out of range, unknown, or an error of its own; keys of maps aside), in a file that is intact, edited by hand or damaged, the error's span is exactly the entry, property, name or annotation in the text that holds this value (for variants, the node or entry that bears the name), its diagnostic and label agree with it and carry the whole text, and the type's own message is kept. A type is only ever handed values that stand in the text (or the documented true of an empty node and false of a flag left out).",
  ["inputs", "fault_sequences", "histories"],
  "every text and type, every callback at which the type may refuse",
  "One existing test looks at the span of one error in one text.",
  ["src/de.rs", "src/error.rs"], [("ValueDeserializer, IdentDeserializer: annotate", "src/de.rs"), ("Error::span, diagnostic, Diagnostic", "src/de.rs")],
  ["the span, labels, diagnostic and source of the error, compared with where the refused value stands"])

p("S05", "A file means to a type what the documented mapping says, in any form",
  "A file written by hand or by another program in any of the forms the documentation of kdl::de gives a value reads as that value, after any history of reloads, rewrites and formatting, whatever the order, notation, comments and type annotations: scalars as arguments; an empty node as true, unit or None; lists as arguments, children or repeated nodes (also interleaved with others); maps and structs as properties and children mixed; flags, units and options left out of a struct; fields read as #n, #args, #rest, #@name, #name, #type, #n#type, #@name#type; enums as strings, children or a property; newtypes and options around all of them; unknown parts ignored, or (deny_unknown_fields) none reported that was read. A property given again replaces the earlier one. Read without a type (as JSON), any file gives what the mapping says, in the order in which names first stand there. Damaged files give an error or some value of the type.",
  ["inputs", "histories", "crash_points"],
  "every type and value, every way to write it down, every history of rewrites, formatting and damage",
  "The existing tests read about thirty hand-written texts, one form each.",
  ["src/de.rs"], [("NodeDeserializer, NodeMapAccess, NodeGroupDeserializer, DocumentDeserializer", "src/de.rs")],
  ["the value read, compared with the value written down by an independent writer"])

p("D12", "Every way of loading tells KDL 2 from KDL 1 alike",
  "Whatever is in a file (KDL 2, KDL 1, neither, damaged or mixed), KDL document parsing, FromStr and serde's from_str accept the same texts and see the same content: what parse_v2 makes of it if that succeeds, else what parse_v1 makes of it; if neither loads it, all report the same diagnostics. The errors are those of KDL 1 only where the text looks like KDL 1. Nodes, entries and identifiers parse like their FromStr, accept everything their parse_v1 accepts, and never report errors of KDL 1.",
  ["inputs", "fault_sequences", "crash_points"],
  "every text of either version and every truncation, loss or corruption of it",
  "The existing tests load a few texts of each version through one entry point each.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/v2_parser.rs", "src/de.rs"], [("KdlDocument::parse, FromStr", "src/document.rs"), ("KdlNode::parse, KdlEntry::parse", "src/node.rs, src/entry.rs"), ("from_str", "src/de.rs")],
  ["results and diagnostics of the entry points, compared with each other"])

p("D13", "Clearing formats, or formatting without comments, leaves one canonical text",
  "At every point of every history of edits, formatting, conversions to KDL 2, saves, crashes and reloads, clearing a document's formats recursively (as a whole, or node after node) leaves a document that is equal to, hashes like and prints like the one made anew by the API from the same nodes, names, types, entries, values and children; that text loads, says the same, and clearing it again after loading changes nothing. Formatting without comments gives the same lines whichever of these it starts from (save where entries are marked to keep their format, and for blank lines in empty blocks).",
  ["histories", "inputs", "crash_points"],
  "every history of edits, formatting, saves, crashes and reloads of every file",
  "Two existing tests clear two pairs of fixed texts.",
  ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs", "src/value.rs"], [("clear_format_recursive", "src/document.rs, src/node.rs"), ("clear_format, autoformat", "src/entry.rs, src/identifier.rs")],
  ["text, equality and hash after clear_format_recursive; lines after autoformat_no_comments"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
