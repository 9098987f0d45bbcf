#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="", level="exploration", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = observe or ["HTTP responses of the server built from the tree"]
    a["hook_needed"] = None
    return dict(prop=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a),
                tech=tech, level=level, note=note)

TRUST = " Trusts the Go toolchain, kernel, SQLite C code and the harness; judges only the executions the seeded workload produces."
L = []
def add(*a, **k): L.append(P(*a, **k))

add("C01", "A record is served identically whichever access path reaches it",
 "The record returned for a given row, object or element is the same whether it is reached by listing the input, by paging at any offset, through any index, or as a related record. It is always the whole content of exactly that source record, independently of neighbouring records, of its position in the file and of the order in which records were read before.",
 ["inputs", "histories"], "Every input file of every format (record sizes around the internal buffer limits, multi-byte text, blank and ragged lines, noise around records) and every order of random accesses.",
 "The tests read two or three short records in order; record boundaries at buffer limits, backward jumps and interleaved reads are never sampled.",
 ["pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go", "pkg/util/bufio.go"],
 [("byte positions given to records while iterating, used later to re-read them", "Get/IterateAll of each input"), ("offset-tracking buffered reading", "pkg/util/bufio.go")],
 state=[("record position", "offset of a record in its source file, stored in indexes")],
 tech="differential runtime oracle: random-order access through every index against generated records")
add("C02", "CSV files are read as the configured table",
 "Every value served from a CSV input is the configured column's cell of that row, converted by the column's parser, for any delimiter, quoting, line ending, header handling, blank line, missing or surplus cell and parsable content. A row or cell which cannot be read gives an error status, never another value or a shifted column.",
 ["inputs", "configurations"], "All CSV documents and column configurations, including quoted delimiters and newlines, multi-byte delimiters, CR/LF mixes, BOM-less encodings and ragged rows.",
 "Tests use a handful of two-column literals.",
 ["pkg/input/csv.go", "pkg/input/csv_record.go", "pkg/input/csv_config.go"], [("column mapping by position or header names", "Csv.NewCsv, CsvRecord.Get"), ("row splitting", "encoding/csv reader over the offset reader")],
 tech="differential runtime oracle over generated CSV documents")
add("C03", "JSON stream inputs are served value for value",
 "Each object of a JSON stream input is served as exactly that JSON value: same keys, nesting, arrays, strings, numbers (as IEEE doubles), booleans and nulls, whatever white space separates the objects. Filtering on any nested path reaches exactly the value at that path.",
 ["inputs"], "All streams of JSON objects: any nesting, escapes, surrogates, number spellings, sizes and separators.",
 "Tests use three flat objects.",
 ["pkg/input/json.go", "pkg/input/json_record.go", "pkg/input/record/path.go"], [("decoder restarted at a byte position", "Json.Get"), ("path resolution", "JsonRecord.Get")],
 tech="differential runtime oracle over generated JSON streams")
add("C04", "XML files are read as configured by their XPath expressions",
 "Each element selected by the record XPath is served as one record whose properties are the primitives, arrays and objects selected by the configured relative XPaths, decoded (entities, CDATA, character references, encodings) and parsed. Elements elsewhere in the document, comments, processing instructions and white space never leak into a record, and absent nodes never take the value of another record.",
 ["inputs", "configurations"], "All XML documents, record XPaths and property trees the configuration accepts.",
 "Tests read one small document in order.",
 ["pkg/input/xml.go", "pkg/input/xml_record.go", "pkg/input/xml_config.go"], [("streaming parser and record offsets", "Xml.Get/IterateAll"), ("property evaluation", "XmlRecord.All/Get")],
 tech="differential runtime oracle over generated XML documents")
add("C05", "Parsers convert every text to the documented value or refuse it",
 "Each parser (string with any supported charset, integer, float, boolean, JSON, split) gives for every text exactly the documented value, or an error when the text does not denote one, with all of its options (ignored characters, decimal separator, true/false spellings, delimiters, regular expressions, nested parsers). A refused text gives an error status and never a default value, and the same holds when many requests use the same parser at once.",
 ["inputs", "configurations"], "All texts x all parser configurations, as cells, route parameters and query parameters.",
 "Tests check one or two values per parser.",
 ["pkg/parser"], [("Parse and GetRegexpPattern of each parser", "pkg/parser/*.go")],
 tech="reference-parser oracle over generated and mutated texts")
add("C06", "A request is answered by the first matching route, with its own parameters",
 "A GET request is answered by the first configured route whose literal parts equal the path's and whose parameter parts are spellings accepted by their parsers, and each parameter receives exactly the text at its place (path parameters winning over query ones). A request matching no route, or using another method, gets a 404 error document and no data.",
 ["inputs", "configurations"], "All route sets and request paths, including percent-encoding, regular-expression metacharacters, empty parts, overlapping routes and every parser type in parameters.",
 "Tests use two hand-written routes.",
 ["pkg/service/http.go", "pkg/parser"], [("route pattern construction and parameter extraction", "createPathRegexp, getMatchingRoute, getParams")],
 tech="reference-router oracle over generated route sets and requests")
add("C07", "Exact-match indexes select exactly the equal records, in file order",
 "For every filter value, the map, sqlite and unindexed (noop) lookups select all of the records whose property equals it, and no other, in file order, with the configured collation and with array properties matched by element where documented. A filter which cannot be evaluated is an error, never an empty answer.",
 ["inputs", "configurations"], "All record sets, property types (text, number, boolean, null, array), collations and filter values.",
 "Tests sample one value per index on three records.",
 ["pkg/index/map.go", "pkg/index/noop.go", "pkg/index/sqlite.go", "pkg/index/sqlite"], [("value to positions maps and tables", "index creation and GetRecordPositions")],
 tech="scan oracle against every exact index, before and after reopening")
add("C08", "A wildcard index selects exactly the records containing the text",
 "For every non-empty text, a wildcard index selects all of the records one of whose indexed values contains it, and no other, in file order, with or without case folding, for text of any alphabet and length and any number of records.",
 ["inputs"], "All string multisets (repetitive, multi-byte, long) and all query substrings, prefixes, suffixes and near-misses.",
 "Tests build a tree from a handful of words; node splits and list growth in other orders are never exercised.",
 ["pkg/index/wildcard.go", "pkg/index/wildcard"], [("on-disk suffix tree: nodes, children, position lists", "pkg/index/wildcard/node.go, position.go, stream.go")],
 state=[("node", "value range, first child, next sibling, positions head/tail")],
 tech="substring-scan oracle against the on-disk suffix tree")
add("C09", "A full-text index selects exactly the records matching the FTS5 expression",
 "For every FTS5 expression of words, prefixes, phrases, columns and boolean operators, the fts5 index selects exactly the records whose indexed text matches it under the configured tokenizer and prefixes, in file order, and an invalid expression is an error.",
 ["inputs", "configurations"], "All indexed texts, tokenizers (unicode61, ascii, porter and their options), prefix settings and expressions in the covered grammar.",
 "Tests run two expressions over three records.",
 ["pkg/index/fts5.go", "pkg/index/fts5_config.go", "pkg/index/sqlite"], [("fts5 virtual table creation and MATCH query", "pkg/index/fts5.go")],
 tech="reference tokenizer/matcher oracle over generated expressions")
add("C10", "Several filters give exactly the intersection, in file order, without duplicates",
 "A request with several filters, on any mix of index kinds and possibly several on one property, gives exactly the records which satisfy all of them, each once and in file order. The answer does not depend on which indexes are used nor on the order of the parameters.",
 ["inputs", "configurations", "histories"], "All subsets of filters x index kinds x data sets.",
 "Tests join two literal lists of positions.",
 ["pkg/input/record/join.go", "pkg/output/json_common.go"], [("merge join of position iterators", "record.JoinPositionIterators"), ("grouping of the filters by index", "json_common.go")],
 tech="scan oracle for conjunctions over all index kinds")
add("C11", "Indexes kept on disk give the same answers in every later life of the server",
 "After an index file was created from an input, every later start on the same input and configuration answers exactly as the first one did, whether the previous life ended by a graceful stop or by SIGKILL while serving, whether several indexes share one database file, whether the input and index files were copied elsewhere with their times, and whether two servers use the same index files at once. Reopening a complete index does not rewrite it.",
 ["histories", "crash_points"], "All sequences of create, serve, stop or kill, copy and reopen.",
 "Unit tests create and read an index in one process; only two of them reopen a file.",
 ["pkg/index/wildcard/metadata.go", "pkg/index/sqlite/metadata.go", "pkg/index/wildcard.go", "pkg/index/sqlite.go", "pkg/index/fts5.go"], [("metadata stored with the index and checked when it is reopened", "AssertValid/LoadMetadata")],
 observe=["HTTP responses over several lives of the server", "SHA-256 of the index files"],
 tech="multi-life history monitor: oracle answers and index file hashes over stop/kill/copy/reopen")
add("C12", "An index which does not fit its input or configuration is refused, not used",
 "When an existing index file was built for another content of the input, another configuration of the index, by another version of the index format, or is not a complete index file at all, the server refuses to start with an error, or answers every request correctly. It never serves records selected by a stale or foreign index.",
 ["histories", "configurations", "fault_sequences"], "All edits of the input (append, same-size edit, truncation, replaced), of the index configuration and all substitutions or damages of whole index files.",
 "Tests check single metadata fields in isolation.",
 ["pkg/index/wildcard/metadata.go", "pkg/index/sqlite/metadata.go"], [("comparison of the stored modification time, size and options", "AssertValid")],
 observe=["exit status and HTTP responses of a server started on a mismatched index"],
 tech="mutation of index/input/config between lives, refused-or-correct oracle")
add("C13", "A crash during index creation never leaves an index giving wrong answers",
 "If the server is killed at any moment while it creates its index files, a later start on what was left refuses to start with an error or answers every request correctly. A partially built index is never served.",
 ["crash_points", "inputs"], "All points of the creation at which the process can be killed, for each kind of persistent index, alone or sharing a database.",
 "No test interrupts an index creation.",
 ["pkg/index/wildcard.go", "pkg/index/wildcard/metadata.go", "pkg/index/sqlite/metadata.go", "pkg/index/sqlite.go", "pkg/index/fts5.go"], [("completed flag written last", "wildcard metadata"), ("transaction or metadata written after the data", "pkg/index/sqlite")],
 observe=["crash images of the index files taken with the process stopped", "kill at the n-th write through a ptrace/seccomp injector"],
 tech="crash-image capture (SIGSTOP, kill at n-th write) and recovery oracle", level="fault_enumeration")
add("C14", "An I/O failure gives an error, never a wrong or partial answer",
 "When a read or write fails (I/O error, full disk, no more descriptors, missing file), the server refuses to start or answers the affected request with an error status. It never answers 200 with missing or wrong records, nor 404 for records that exist, and unaffected or later requests are answered correctly once the fault is gone.",
 ["fault_sequences", "inputs"], "All sequences of failing system calls during index creation and request handling.",
 "No test injects an I/O error in a running server.",
 ["pkg/input", "pkg/index", "pkg/output/json_common.go"], [("error propagation from readers, iterators and statements", "all layers")],
 observe=["HTTP responses while errors are injected in the server's system calls (ptrace/seccomp), or under resource limits"],
 tech="system-call fault injection (ptrace/seccomp injector, descriptor limits, missing files) with an error-or-correct oracle", level="fault_enumeration")
add("C15", "Paging covers the result exactly",
 "For every limit and offset, a page holds exactly the records from that offset on, at most the limit bounded by the configured maximum, in file order; so pages following each other cover the whole result once each. An invalid limit or offset is an error.",
 ["inputs", "configurations"], "All limits, offsets (negative, zero, huge, malformed), defaults, maxima, parameter names and filtered or unfiltered results.",
 "Tests check three pages of a mock.",
 ["pkg/output/json_array.go", "pkg/output/json_array_config.go"], [("limit/offset parsing and skipping", "JsonArray.Handle")],
 tech="page/concatenation oracle over generated limits and offsets")
add("C16", "A single-object route gives the first matching record or a 404",
 "A jsonObject route answers with the first record, in file order, which satisfies all of its parameters, and with a 404 error document exactly when no record does. Any failure is an error status other than 404.",
 ["inputs", "configurations"], "All parameter combinations over all index kinds and data sets.",
 "Tests look up one existing and one missing literal.",
 ["pkg/output/json_object.go", "pkg/output/json_common.go"], [("first position or not-found error", "JsonObject.Handle")],
 tech="scan oracle for single-record routes")
add("C17", "Relationships attach exactly the matching related records",
 "Each relationship attaches the records of its input whose matched properties all equal the parent's (an array, bounded by its limit, in file or configured order) or the first such record or null, recursively, for any input formats and any index used. Relationships of one record never show data of another.",
 ["inputs", "configurations"], "All relationship trees (depth, arity, limits, sorts, match properties, indexes) over all data sets.",
 "Tests use mocks with one or two relations.",
 ["pkg/output/json_common.go", "pkg/output/relationship/config.go"], [("per-record filters and recursive loading", "getRelationshipFiltersPerIndex, loadRelationships")],
 tech="nested-join oracle over generated relationship trees")
add("C18", "Every response is one complete, typed and self-consistent HTTP message",
 "Every well-formed HTTP request gets exactly one response whose status, content type and body agree: 200 with one JSON document of the output's shape, or an error status with one JSON object holding a non-empty message. A value which cannot be represented in JSON gives an error, and no malformed, pipelined, oversized or unusual request crashes the server or corrupts the answer to another one.",
 ["inputs", "histories"], "All HTTP requests (methods, paths, headers, bodies, encodings, pipelining, early disconnections) and all served values.",
 "Tests send a few well-formed requests to a handler.",
 ["pkg/service/http.go", "pkg/output/json_array.go", "pkg/output/json_object.go"], [("status sent only once the body is known to be encodable", "Handle/sendError/sendSuccess")],
 observe=["raw bytes on TCP connections"],
 tech="raw-socket protocol monitor under hostile requests")
add("C19", "Concurrent requests answer as if each was alone, without data races",
 "Whatever requests run at the same time, on any inputs, indexes, parsers and outputs, each answer is the one the same request gets alone. No execution contains a data race, deadlock or crash.",
 ["schedules", "histories"], "All interleavings of concurrent requests over all components.",
 "All of the tests are sequential and the suite is not run under the race detector with parallel requests.",
 ["pkg/input", "pkg/index", "pkg/parser/string.go", "pkg/output/json_common.go", "pkg/service/http.go"], [("readers, decoders and connections shared between requests", "inputs, wildcard stream, sqlite handles")],
 observe=["HTTP responses of concurrent clients", "reports of the Go race detector"],
 tech="Go race detector plus sequential-answer oracle under concurrent load")
add("C20", "Serving requests keeps resources bounded",
 "File descriptors, threads, goroutines, database connections and memory held by the server stay bounded by the number of requests being handled, whatever requests came before: successful, failing, partially read, or abandoned by the client.",
 ["histories"], "All histories of requests, of any length.",
 "Tests end before a leak can matter.",
 ["pkg/input", "pkg/index/sqlite", "pkg/index/noop.go", "pkg/output/json_common.go", "pkg/service/http.go"], [("closing of readers, rows and iterators on every path", "iterators' End, defer Close")],
 observe=["/proc/<pid>/fd, status and smaps of the server between rounds of requests"],
 tech="resource monitor over /proc across rounds of requests")
add("C21", "A modified input stops the server when it is asked to, and only then",
 "With dieOnInputChange (the default), any modification made in place to the content of an input file ends the server with a failure soon after it; a file replaced or removed (renamed, deleted) either does the same, or the server goes on serving exactly the original content. With it disabled the server keeps serving, and in both modes a file nobody modified never ends it.",
 ["histories", "configurations"], "All file operations on the inputs (write, append, truncate, touch, rename, delete, replace), all input formats, at any time.",
 "Tests write once to one watched file.",
 ["pkg/util/fsnotify.go", "pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go"], [("file watcher", "util.StartFilesystemWatchProcess")],
 observe=["exit status of the server after file operations"],
 tech="history monitor: file operations against process exit")
add("C22", "A configuration is either refused with an error or honoured entirely",
 "An invalid configuration (unknown or duplicated names, dangling references, cycles, missing or ill-typed or out-of-range settings, unknown keys) ends the server with a non-zero status and an error message instead of being served, and never with a crash. A valid one starts, whatever optional settings are left out, with the documented defaults.",
 ["configurations"], "All configuration documents obtained by omitting, duplicating, retyping, renaming or cross-wiring settings.",
 "Tests validate a few single-field mistakes.",
 ["pkg/config", "pkg/index", "pkg/input", "pkg/output", "pkg/parser", "pkg/service", "pkg/util/config.go"], [("Validate of each section, strict YAML decoding", "pkg/config/config.go and *_config.go")],
 observe=["exit status, output and HTTP responses of servers started on mutated configurations"],
 tech="configuration mutation with an accept/refuse oracle and crash monitor")
add("C23", "Startup and shutdown are clean and lose no request",
 "The server listens only once everything it needs is ready, so every accepted request is answered correctly. On the interrupt signal it answers completely all of the requests it is already handling, stops accepting, and ends with status 0; when it cannot start or loses a service it ends with a failure status and frees its ports.",
 ["schedules", "histories", "fault_sequences"], "All moments at which requests, signals and start failures can come.",
 "No test runs the program itself.",
 ["cmd/main.go", "pkg/service/http.go", "pkg/service/service.go"], [("Shutdown of the HTTP servers, ordering of the closings", "main, service.Close")],
 observe=["exit status, open sockets and responses around the signal"],
 tech="lifecycle monitor: requests in flight around signals and failed starts")
add("C24", "Malformed input is reported, never silently truncated or skipped",
 "When an input file contains something which is not a valid record of its format, the requests or the start which must read it fail with an error. Records are never silently dropped, merged, or served as the end of the data. (XML is read leniently by design: what its lenient reading accepts, such as unbalanced tags, is not malformed.)",
 ["inputs"], "All single and multiple corruptions (truncations, deleted, inserted or replaced bytes) of valid CSV, JSON and XML files.",
 "Tests check one malformed literal per format.",
 ["pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go", "pkg/index"], [("errors of the decoders told apart from the end of the file", "IterateAll of each input")],
 tech="corruption fuzzing with an independent format oracle: exact records or an error")
add("C25", "Sorted relationships are in the configured order",
 "The records attached by a sorted relationship are ordered by the first sort property, then the next ones, ascending or descending as configured, and the limit keeps the first ones of that order. A missing value sorts before the others and never disturbs their order.",
 ["inputs", "configurations"], "All lists of related records, sort properties, directions, value types and missing values.",
 "Tests sort three records by one property.",
 ["pkg/input/record/sort.go", "pkg/parser/parser.go", "pkg/output/json_common.go"], [("multi-key comparison", "record.Sort, parser.Compare")],
 tech="ordering oracle over generated relationships")
add("C26", "Names and texts are data: they never change what is queried or created",
 "Any index, input, property, parameter, output or route name and any filter value the configuration accepts (quotes, semicolons, SQL or regular-expression syntax, Unicode, control characters) is treated literally. Distinct names stay distinct, also in indexes sharing one database file, and no name or value can change another index, the database schema or files other than the configured ones.",
 ["inputs", "configurations"], "All names and values, hostile ones included, in every place of the configuration and requests.",
 "Tests use plain ASCII names.",
 ["pkg/index/sqlite", "pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/service/http.go"], [("identifier quoting and bound parameters", "pkg/index/sqlite/sanitize.go"), ("table names derived from index names", "pkg/index/sqlite.go, fts5.go")],
 observe=["HTTP responses", "directory listing before and after"],
 tech="injection workload with oracle answers, schema and file-system monitors")
add("C27", "Every service, scheme and output sharing the data gives the same answers",
 "All of the services of a server, over HTTP and HTTPS and on any number of ports, and all of the routes and outputs sharing an input or an index, answer the same question identically and independently of what the other ones are doing.",
 ["configurations", "schedules"], "All sets of services, schemes, routes and outputs sharing inputs and indexes.",
 "Tests start one service with one route.",
 ["pkg/service/service.go", "pkg/service/http.go", "pkg/output"], [("services sharing outputs, inputs and indexes", "cmd/main.go")],
 tech="cross-service equality monitor with oracle answers")

only = set()
src = os.path.join(V, "harness")
for f in os.listdir(src):
    if f.endswith(".go"):
        for l in open(os.path.join(src, f)):
            if "register(&Check{ID:" in l:
                only.add(l.split('ID: "')[1].split('"')[0])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p["prop"]) + "\n")
checks, na = [], []
for p in L:
    i = p["prop"]["id"]
    if i in only:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + p["tech"], "level": p["level"],
            "level_note": p["note"] or ("Held on every execution observed in the run's seeded workload (counts in the evidence)." + TRUST)})
    else:
        na.append({"property": i, "reason": "its check is not written yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Black-box harness: no hooks in /repo. Each check builds the server from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
for p in L:
    assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
print(len(checks), "checks;", [x["property"] for x in na])
