#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
TESTS = "The tests parse a handful of fixed texts (and the YAML test suite, which needs a download)"
P = []
def p(id, title, statement, over, text, why, files, mech, level, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note))

REF = "Trusts the vendored copy of unsafe-libyaml 0.2.11 as the reference model, and holds within the stated bounds."
B = "Holds within the stated bounds (alphabets, depths, sizes), all of which are enumerated completely."

p("C01", "No input makes reading panic, crash or run forever",
  "For every byte sequence, in every declared or detected encoding, scanning, parsing, loading and iterating end after a number of items bounded by the size of the input, with either the end of the stream or an error value. They never panic, abort or loop, however deep the nesting. Further calls after the end or after an error are also safe.",
  ["inputs"], "every byte string, every encoding setting, every way of reading (scan, parse, load, iterate), and calls after the end or an error",
  TESTS + "; a panic on an unusual byte sequence is invisible to them.",
  ["src/scanner.rs", "src/parser.rs", "src/reader.rs", "src/document.rs"],
  [("Scanner", "src/scanner.rs: fetch_next_token and the scan_* functions"), ("Reader", "src/reader.rs: yaml_parser_update_buffer"), ("Parser states", "src/parser.rs: state_machine")],
  "exploration", "bounded exhaustive exploration of the real code: every sequence of atoms up to a depth, five entry points, calls past the end, watchdog for termination", B)
p("C02", "The events of a text are those libyaml produces",
  "Parsing any text gives the same sequence of events as libyaml: kinds, values, styles, anchors, tags, directives and implicit flags, and the same choice between success and error at the same event. Percent escapes in tags that do not decode to UTF-8 are an error here, and an escaped NUL is part of the tag instead of ending it.",
  ["inputs"], "every text", TESTS + "; equality with the reference over all short texts and long ones near the limits of the format is not sampled at all.",
  ["src/parser.rs", "src/scanner.rs"], [("Parser states", "src/parser.rs: state_machine and parse_* functions"), ("Default tags", "src/parser.rs: process_directives, tag resolution in parse_node")],
  "model_checking", "lock-step conformance with a reference model (libyaml's parser) on every text of bounded spaces", REF)
p("C03", "The tokens of a text are those libyaml's scanner produces",
  "Scanning any text gives the same sequence of tokens as libyaml's scanner: kinds, scalar values and styles, names, tag parts and directive contents, and the same choice between success and error at the same token. Simple keys, indentation, folding, chomping, escapes and the limits on key length and depth are libyaml's.",
  ["inputs"], "every text", TESTS + "; the scanner's rules interact across characters, which only enumeration covers.",
  ["src/scanner.rs"], [("Tokenizer", "src/scanner.rs: fetch_next_token, scan_block_scalar, scan_flow_scalar, scan_plain_scalar"), ("Simple keys", "src/scanner.rs: stale_simple_keys, save_simple_key"), ("Indentation", "src/scanner.rs: roll_indent, unroll_indent")],
  "model_checking", "lock-step conformance with a reference model (libyaml's scanner) on every text of bounded spaces", REF)
p("C04", "Events always form a well-formed stream, by calls and by iteration",
  "The events of any text are a prefix of a well-formed stream: one stream start, balanced documents and collections, one root node per document, complete key/value pairs, and a stream end unless an error came first. The event and token iterators yield exactly what repeated calls yield, then the error once if there is one, then nothing for ever; after an error parsing produces nothing more.",
  ["inputs"], "every text, every number of calls", TESTS + "; nesting and pairing must hold for every text, and iteration past the end or an error is not exercised.",
  ["src/parser.rs", "src/scanner.rs", "src/lib.rs"], [("Parser states", "src/parser.rs: state_machine"), ("Iterators", "src/parser.rs and src/scanner.rs: Iterator implementations")],
  "model_checking", "exhaustive exploration of bounded texts against a pushdown model of the event grammar", B)
p("C05", "Positions of tokens and events are exact",
  "Every start and end position (offset, line, column) that tokens and events carry is a real position of the text, counted in its bytes, lines and characters, with every kind of line break; an item never ends before it starts and items start in order. The positions are the ones libyaml gives.",
  ["inputs"], "every text with every mixture of line breaks, multi-byte characters and byte order marks",
  "Existing tests look at positions of two or three texts only.",
  ["src/scanner.rs", "src/parser.rs", "src/reader.rs"], [("Marks", "src/scanner.rs: skip, skip_line, read, read_line; token marks"), ("Event marks", "src/parser.rs: start_mark/end_mark of parse_* functions")],
  "model_checking", "lock-step conformance with libyaml's marks and with an independent position counter on every text of bounded spaces", REF)
p("C06", "How the input is chunked never changes the result",
  "The tokens, events, positions and errors of an input do not depend on where the reader happens to split it into buffers, nor on interrupted reads that are retried. All ways of providing input give the same result.",
  ["inputs", "schedules"], "every input and every placement of buffer boundaries and interruptions",
  "Tests read from one in-memory slice; a boundary inside a character, a line break or a byte order mark never occurs.",
  ["src/reader.rs", "src/scanner.rs"], [("Decoding", "src/reader.rs: yaml_parser_update_buffer, read_utf8, read_utf16"), ("Input", "src/scanner.rs: set_input, set_input_string")],
  "model_checking", "exhaustive enumeration of read schedules (all cut sets of short inputs, all single and pair cuts of longer ones) under a controlled source", B)
p("C07", "UTF-8 and UTF-16 forms of a text read the same",
  "A text gives the same tokens, values, events and errors in UTF-8 and in UTF-16 of either byte order, whether the encoding is declared or detected from a byte order mark. A byte order mark is not content, and every character, including those outside the basic plane, survives.",
  ["inputs", "configurations"], "every text, every encoding, declared or detected", "Tests use UTF-8 only.",
  ["src/reader.rs"], [("Encoding detection", "src/reader.rs: yaml_parser_determine_encoding"), ("UTF-16", "src/reader.rs: read_utf16")],
  "model_checking", "exhaustive differential exploration: every code point and bounded texts in six encoded forms under several read schedules", B)
p("C08", "Exactly the well-formed allowed characters are accepted",
  "An input is accepted exactly when it is well-formed in its encoding and all its characters are allowed in YAML; otherwise reading reports an error, which gives the byte offset of the first bad character unless the input stops inside it, and never delivers altered characters. Accepted characters come back unchanged in scalar values.",
  ["inputs"], "every byte sequence in every encoding", "One unit test samples a few characters; overlong forms, truncated sequences, surrogates and every boundary of the repertoire are untested.",
  ["src/reader.rs", "src/macros.rs"], [("Character repertoire", "src/reader.rs: push_char"), ("UTF-8 and UTF-16 validation", "src/reader.rs")],
  "model_checking", "exhaustive exploration of byte strings and code points against an independent decoder and character table", B)
p("C09", "A failing input source is reported and never taken for the end",
  "When the input source fails with an error after any number of bytes, reading reports that error; it is never mistaken for the end of the input and no truncated document is delivered as complete. What was delivered before the error is a prefix of what the whole input gives.",
  ["fault_sequences", "inputs"], "every input and every position of the failure", "No test has a failing source.",
  ["src/reader.rs", "src/error.rs"], [("I/O errors", "src/reader.rs: fill_buf error handling"), ("Error source", "src/error.rs")],
  "fault_enumeration", "exhaustive fault injection: a read error after every number of bytes, in several chunkings and entry points", B)
p("C10", "What is emitted reads back as the same stream",
  "Every well-formed event stream that the emitter accepts produces text that parses back to the same stream: structure, values, anchors, aliases, tags and directives, and the requested block, flow and double-quoted styles where the context allows them. This holds in every configuration of indentation, width, line break, encoding, unicode and canonical form.",
  ["inputs", "configurations"], "every well-formed event stream and emitter configuration", "The emitter tests compare a few outputs with files of the test suite that is not even present offline.",
  ["src/emitter.rs"], [("Scalar analysis", "src/emitter.rs: analyze_scalar, select_scalar_style"), ("Writers", "src/emitter.rs: write_plain_scalar, write_double_quoted_scalar, write_literal_scalar, write_folded_scalar"), ("Simple keys", "src/emitter.rs: check_simple_key")],
  "model_checking", "exhaustive exploration of event streams over a pushdown model of the event grammar; oracle: the parsed-back stream", B + " Three inherited libyaml round-trip failures are listed as known findings.")
p("C11", "Emitted bytes are libyaml's",
  "For every event stream without NUL in names and tags, the emitter writes exactly the bytes libyaml writes in the same configuration, accepts the same events and fails with the same problem. In UTF-16 output characters outside the basic plane are proper surrogate pairs.",
  ["inputs", "configurations"], "every event stream and emitter configuration", "Tests compare a few outputs only.",
  ["src/emitter.rs"], [("Emitter states", "src/emitter.rs: state machine, emit_* functions"), ("Line breaking", "src/emitter.rs: write_* functions, best_width"), ("Output", "src/emitter.rs: flush")],
  "model_checking", "lock-step conformance with a reference model (libyaml's emitter) on every event stream of bounded spaces", REF)
p("C12", "The emitter refuses exactly the invalid event sequences",
  "A sequence of events is accepted exactly when it follows the grammar of streams, documents and nodes and its anchors, tags and directives are valid; the first invalid event is refused with an emitter error within the emitter's look-ahead of three events. No sequence of events makes the emitter panic, and after a refusal everything else is refused too.",
  ["inputs", "histories"], "every sequence of events, well formed or not", "Tests only emit valid streams.",
  ["src/emitter.rs"], [("State machine", "src/emitter.rs: state_machine, need_more_events"), ("Analysis", "src/emitter.rs: analyze_anchor, analyze_tag, analyze_version_directive, analyze_tag_directive")],
  "model_checking", "exhaustive exploration of event sequences against a pushdown model of the event grammar", B)
p("C13", "A failing or short-writing output is reported, nothing is lost or doubled",
  "Whatever the output does (accept any part of the data, be interrupted, accept nothing, fail), the bytes it accepted up to the first failing call are a prefix of the full output, and all of it when every call succeeded. A failure is reported to the caller by the call that meets it, and repeating a flush after a failure that took nothing writes nothing twice.",
  ["fault_sequences"], "every output stream and every point of failure or short write", "No test has a failing or short-writing output.",
  ["src/emitter.rs", "src/error.rs"], [("Flush", "src/emitter.rs: flush, write buffer"), ("Write errors", "src/error.rs")],
  "fault_enumeration", "exhaustive fault injection: failures after every number of bytes, short and interrupted writes, repeated flushes", B)
p("C14", "Emitter settings change the form and never the content",
  "Canonical form, indentation, width, line break, unicode and encoding each have their documented effect on the output: only the chosen line break occurs, nothing outside ASCII is written unless unicode is allowed, UTF-16 output is the same text behind a byte order mark, unlimited width breaks no line, and nested blocks are indented by the chosen amount. None of them changes what the output means.",
  ["configurations", "inputs"], "every configuration and every event stream", "Tests use one fixed configuration.",
  ["src/emitter.rs"], [("Configuration", "src/emitter.rs: set_canonical, set_indent, set_width, set_unicode, set_break, set_encoding; emit_stream_start"), ("Escaping", "src/emitter.rs: write_double_quoted_scalar"), ("Line breaks", "src/emitter.rs: put_break, write_break")],
  "model_checking", "exhaustive exploration of a grid of configurations over bounded event streams, relating the outputs to each other", B)
p("C15", "Loaded documents are exactly the composition of the events",
  "Loading any text gives, document by document, the node graph its events describe: nodes in order of appearance with their values, styles, positions and (default) tags, each alias referring to the node with that anchor, cycles included. Undefined aliases and duplicate anchors are composer errors, anchors do not leak into the next document, and the documents are the ones libyaml loads.",
  ["inputs"], "every text, every number of documents", "No test loads a document.",
  ["src/document.rs"], [("Composer", "src/document.rs: load, load_nodes, load_alias, load_node_add, register_anchor"), ("Anchors", "src/parser.rs: aliases")],
  "model_checking", "exhaustive exploration of bounded texts against a composer model over the events and lock-step with libyaml's loader", REF)
p("C16", "A dumped document loads back as the same graph",
  "Dumping any documents, built or loaded, and loading the output gives isomorphic graphs from the roots: the same kinds, values, tags, order, directives and sharing, cycles included, at any depth. Where libyaml can dump the graph the bytes are libyaml's.",
  ["inputs", "configurations"], "every document graph (sharing, cycles, unreachable nodes), every sequence of documents, every configuration", "No test dumps a document.",
  ["src/document.rs", "src/emitter.rs"], [("Anchoring", "src/document.rs: anchor_node"), ("Serialisation", "src/document.rs: dump_node, dump_alias, dump_scalar, dump_sequence, dump_mapping"), ("Stream", "src/emitter.rs: open, close")],
  "model_checking", "exhaustive exploration of all document graphs of up to four nodes and pairs of documents; oracles: graph isomorphism after reloading, libyaml's dump", B + " Known findings are those of C10.")
p("C17", "Building and querying documents follows a simple node list",
  "A document is a list of nodes numbered from one: adding returns the next number, the default tags of YAML are filled in, appending links existing nodes in order, looking up a number outside the list gives nothing, and the root is the first node. An append with an invalid number or kind of node never changes the document.",
  ["histories"], "every sequence of document operations with valid and invalid numbers", "No test builds a document.",
  ["src/document.rs"], [("Builder", "src/document.rs: add_scalar, add_sequence, add_mapping, append_sequence_item, yaml_document_append_mapping_pair"), ("Lookup", "src/document.rs: get_node, get_node_mut, get_root_node")],
  "model_checking", "exhaustive exploration of operation sequences, in lock-step with a list model", B)
p("C18", "Objects can be reset and reused, and never affect each other",
  "A parser, scanner, loader or emitter that is reset after any number of steps, in any state including errors, behaves like a new one on the next stream. Two objects used in any interleaving behave as each alone.",
  ["histories", "schedules"], "every number of steps before the reset, every pair of streams, every interleaving of two objects", "No test resets or interleaves objects.",
  ["src/parser.rs", "src/scanner.rs", "src/emitter.rs"], [("Reset", "src/parser.rs, src/scanner.rs, src/emitter.rs: reset")],
  "model_checking", "exhaustive exploration of reset points and of all interleavings of two objects up to ten steps", B)
p("C19", "Errors tell the same problem and place as libyaml's",
  "Every text that is refused is refused with libyaml's kind of error, problem, context and positions (except the spelling of one message and where decoding problems surface), and the error's text names the kind, the problem, the context and the positions, counted from one.",
  ["inputs"], "every refused text", "Two tests look at the position of one error each.",
  ["src/error.rs", "src/scanner.rs", "src/parser.rs", "src/document.rs"], [("Errors", "src/error.rs: Display, kind, problem, problem_mark, context, context_mark"), ("Origins", "src/scanner.rs, src/parser.rs, src/document.rs: Error::scanner, Error::parser, Error::composer")],
  "model_checking", "lock-step conformance of every error with libyaml's on every text of bounded spaces", REF)
p("C20", "Documents of a stream are independent of each other",
  "An explicit document means the same whatever documents came before it in the stream: its events, loaded nodes and errors are those it has alone, with shifted positions. Anchors, tag directives and version directives never carry over.",
  ["inputs", "histories"], "every sequence of documents", "Multi-document streams in the tests are few, and none checks leakage of directives or anchors.",
  ["src/parser.rs", "src/document.rs"], [("Directives", "src/parser.rs: process_directives, parse_document_start, parse_document_end"), ("Anchors", "src/document.rs: delete_aliases")],
  "model_checking", "exhaustive exploration of pairs of bounded streams, compared with the later part alone", B)
p("C21", "The command-line programs show exactly what the library does",
  "The parser program prints every event of its input files in the notation of the YAML test suite and exits with success exactly when all parse; the emitter program reads that notation and writes what the emitter writes for those events. Errors go to standard error with a failing exit status.",
  ["inputs"], "every input file and every number of files", "The tests of the programs need a download and do not run offline; even then they cover the suite's files only.",
  ["src/bin/run-parser-test-suite.rs", "src/bin/run-emitter-test-suite.rs"], [("Event printer", "src/bin/run-parser-test-suite.rs: test_main, print_escaped"), ("Event reader", "src/bin/run-emitter-test-suite.rs: test_main, get_anchor, get_tag, get_value")],
  "model_checking", "exhaustive exploration of bounded inputs and event lines through the real processes, against a model of the notation over the library", B)
p("C22", "What precedes a construct in the input does not change it",
  "Padding of any size that has no meaning (comments and blank lines in front of a construct, or the same number of spaces in front of every line of it) changes only the positions of its tokens, events and errors, by exactly the size of the padding. Internal buffer sizes are never visible.",
  ["inputs"], "every construct and every size of what precedes it", "Tests use small texts that fit every buffer.",
  ["src/reader.rs", "src/scanner.rs"], [("Buffer", "src/reader.rs: buffer refilling"), ("Token queue", "src/scanner.rs: fetch_more_tokens")],
  "model_checking", "exhaustive exploration of padding kinds and sizes around the internal and format limits, relating outputs", B)

p("C23", "Reading and writing are incremental",
  "Each token, event and document is delivered after asking the input for no more bytes than libyaml needs for it, and giving an input to a parser reads nothing. After a flush at any point of a stream, and at the end of every document, the output has everything libyaml would have written by then.",
  ["inputs", "histories"], "every text and every item of it; every event stream and every point of a flush", "Tests read whole texts from memory and look at the output at the end only; a reader that waits for more input than it needs would hang on a pipe.",
  ["src/reader.rs", "src/scanner.rs", "src/parser.rs", "src/emitter.rs"], [("Look-ahead", "src/scanner.rs: cache, fetch_more_tokens; src/reader.rs: yaml_parser_update_buffer"), ("Event look-ahead", "src/emitter.rs: needs_mode_events, need_more_events"), ("Flush", "src/emitter.rs: flush")],
  "model_checking", "lock-step conformance with libyaml fed one character at a time (input asked for at each item) and flushed after every event, over bounded spaces", REF)
p("C24", "Memory depends on what is open, not on the length of the stream",
  "Scanning, parsing, loading document by document, emitting and dumping a stream of any length take memory bounded by the nesting depth, the longest item and the largest document in it. Nothing is kept for items that are complete.",
  ["inputs"], "every repeated construct in every context, any number of times", "Tests read streams of a few lines, where nothing that is kept would show.",
  ["src/scanner.rs", "src/parser.rs", "src/document.rs", "src/emitter.rs", "src/reader.rs"], [("Queues and stacks", "src/scanner.rs: tokens, simple_keys, indents; src/parser.rs: states, marks, tag_directives, aliases"), ("Output", "src/emitter.rs: buffer, events, states, indents, anchors")],
  "model_checking", "exhaustive exploration of repeated units of text and events with a counting allocator: the peak of a long stream against that of a short one", B)
p("C25", "Calls on an emitter work in any order as libyaml's do",
  "Whatever the order of calls that open, dump, emit, flush, close and change settings on one emitter, each succeeds or fails with the same problem as libyaml's, and what is flushed is what libyaml writes; closing twice or dumping an empty document twice does nothing more. After a failure nothing more is written. (Calls that the library asserts against are left out.)",
  ["histories", "configurations"], "every sequence of calls", "No test dumps a document or closes a stream.",
  ["src/emitter.rs", "src/document.rs"], [("Stream calls", "src/emitter.rs: open, close, emit, flush"), ("Dumping", "src/document.rs: dump; src/emitter.rs: anchors, reset_anchors")],
  "model_checking", "exhaustive exploration of call sequences in lock-step with a reference model (libyaml's emitter and dumper)", REF)
p("C26", "Work stays in proportion to libyaml's on long streams",
  "However the constructs of YAML are repeated, nested or prolonged in a long stream, scanning, parsing, loading, emitting and dumping it takes no more than a small constant times the processor time, the bytes of memory asked for and the calls to its input and output that libyaml takes. No input makes the cost grow faster with its length than it does in libyaml.",
  ["inputs"], "every repeated construct in every context", "Tests read streams of a few lines, where a quadratic cost would not show.",
  ["src/scanner.rs", "src/parser.rs", "src/document.rs", "src/emitter.rs", "src/reader.rs"], [("Simple keys", "src/scanner.rs: stale_simple_keys, fetch_more_tokens"), ("Queues", "src/scanner.rs: tokens, buffer; src/emitter.rs: events, buffer, increase_indent, analyze"), ("Anchors", "src/document.rs: load, dump")],
  "model_checking", "exhaustive exploration of repeated units in every context, in lock-step with a reference model (libyaml): work of the implementation against work of the model", REF)
p("C27", "The input source is asked in order and never again once it has stopped",
  "Reading takes the bytes of the source once each and in order, never consumes what it was not given, and does not ask again after the source has reported its end or a failure (other than an interruption), whatever calls follow. The end of the stream is delivered exactly when the source has ended and all its bytes have been taken.",
  ["inputs", "fault_sequences"], "every input, stopping after every byte", "No test has a source other than a complete slice.",
  ["src/reader.rs", "src/scanner.rs"], [("Filling the buffer", "src/reader.rs: yaml_parser_update_buffer, read_utf8_buffered, read_utf16_buffered, *_unbuffered"), ("End and error", "src/scanner.rs: eof, stream_end_produced, cache")],
  "fault_enumeration", "exhaustive enumeration of the place and manner in which the source stops, with a source that watches how it is used", B)

NA = []
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]]))) + "\n")
    f.close()
checks = [dict(property=x["id"], quick_cmd=f"./check.sh {x['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {x['id']}", technique=x["technique"], level=x["level"], level_note=x["note"]) for x in P]
m = dict(version=1, setup_cmd="./check.sh build", hooks=dict(guard="none", enable="no hooks: the checks use the public API of /repo's crate and its programs only", source_commits=[]), checks=checks, not_applicable=NA)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
