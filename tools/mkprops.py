#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Acknowledged XML saves read back exactly",
 "Once saving a coverage database as UCIS XML has reported success (to a path or a stream, through the library or the command line), every later read of it - directly, gzip-compressed, after a process restart, after further save/read generations, or after transient I/O failures that were retried - yields the same data. The same data means: every test-history record with all of its fields except its parent; every top-level instance with its design-unit name; every covergroup, cover instance, coverpoint and cross with its weight, crossed coverpoints and at_least; and every bin's name, kind (normal/ignore/illegal) and count. Covergroups recorded only at type level read back with one cover instance of the same name and data; the command-line conversion carries the coverage part only.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "all histories of record / save / read / edit / restart / retry over databases expressible in the XML schema, with transient read, write and open failures and timezone, locale and clock changes in between",
 "Tests save a handful of fixed databases once, in one process, with no fault, and compare a few fields; the claim is over all databases, generations, restarts and interleaved failures.",
 ["src/ucis/xml/xml_writer.py", "src/ucis/xml/xml_reader.py", "src/ucis/xml/xml_factory.py", "src/ucis/xml/xml_ucis.py", "src/ucis/cmd/cmd_convert.py"],
 [("database to XML text", "src/ucis/xml/xml_writer.py:XmlWriter.write"), ("XML text to database", "src/ucis/xml/xml_reader.py:XmlReader.read"), ("file dispatch and gzip detection", "src/ucis/xml/xml_factory.py:XmlFactory.read/write")],
 [("saved file", "the durable form of a database", "path given by the caller")],
 ["database iteration API after reading back"])

prop("C02", "Torn, truncated or half-read XML never loads as different data",
 "If an XML database file (plain or gzip-compressed) was cut short, lost its tail, had its tail replaced by zeros, or was left incomplete by a crash or disk failure at any byte of a save, then reading it either raises an error or returns exactly the data of the complete save; likewise when reading an intact file fails or delivers an early end-of-file part-way. It never returns a partial or altered database. Merge, convert and report commands given such a file fail with a non-zero status instead of using what they could read.",
 ["crash_points", "fault_sequences", "inputs"],
 "every crash byte / truncation point / lost or zeroed tail of a save, every read at which an I/O error or early EOF occurs, plain and gzip, for all saved databases",
 "No test damages a file, interrupts a write or fails a read; the space is every byte offset of every file.",
 ["src/ucis/xml/xml_factory.py", "src/ucis/xml/__init__.py", "src/ucis/xml/xml_reader.py", "src/ucis/cmd/cmd_merge.py", "src/ucis/cmd/cmd_convert.py", "src/ucis/cmd/cmd_report.py"],
 [("schema validation before use", "src/ucis/xml/__init__.py:validate_ucis_xml"), ("strict parse", "src/ucis/xml/xml_reader.py:XmlReader.read")],
 (), ["exception or database returned by a read; exit status of commands"])

prop("C03", "Merging counts every source exactly once, in any order or grouping",
 "Merging databases yields, for every top-level instance / covergroup / cover instance / coverpoint / cross / bin present in any source, that bin's name and kind with the sum of its counts over the sources listed (a source listed twice counts twice), keeps weights, design-unit names, crossed coverpoints and at_least, and adds nothing else. The result does not depend on the order of the sources or on how they are grouped into intermediate merges, in memory or through files and the command line, nor on merges that failed part-way and were retried. The sources are left unchanged.",
 ["histories", "fault_sequences", "inputs"],
 "all sets of sources that agree on the options of equally named items, all merge trees and orders, in-memory and XML/YAML-file routes, with failed attempts, retries and restarts in between",
 "Tests merge 1-3 fixed databases in one order; associativity, retry and conservation over arbitrary trees are never exercised.",
 ["src/ucis/merge/db_merger.py", "src/ucis/cmd/cmd_merge.py"],
 [("name-keyed accumulation", "src/ucis/merge/db_merger.py:DbMerger.merge"), ("merge command", "src/ucis/cmd/cmd_merge.py:merge")],
 (), ["iteration over the merged database", "merged output file"])

prop("C04", "A failed command leaves existing files as they were",
 "When a merge, convert or report command (or the corresponding library save) fails because an input is missing, unreadable, damaged or invalid, because the data cannot be represented, or because it is interrupted before it starts writing its result, then a pre-existing output file still has its previous contents byte for byte, no output file appears where none existed, and no other file in the directory is created, changed or removed. Input files are never modified, whether the command succeeds, fails or crashes.",
 ["fault_sequences", "crash_points", "inputs"],
 "all commands, all points before the output is opened at which an input/validation/conversion/interrupt failure can strike, all pre-existing directory contents",
 "Tests only run successful library calls and never look at what a failing command leaves behind.",
 ["src/ucis/cmd/cmd_merge.py", "src/ucis/cmd/cmd_convert.py", "src/ucis/cmd/cmd_report.py", "src/ucis/xml/xml_factory.py", "src/ucis/xml/xml_ucis.py"],
 [("serialise before opening the output", "src/ucis/xml/xml_factory.py:XmlFactory.write, src/ucis/xml/xml_ucis.py:XmlUCIS.write"), ("report built before opening the output", "src/ucis/cmd/cmd_report.py:report")],
 (), ["bytes of every file in the working directory before and after"])

prop("C05", "Commands report success exactly when the output is complete",
 "A command-line run that meets a failure (unreadable, missing or invalid input, unknown format, open/write/flush/close failure of the output file, failure writing standard output) ends with a non-zero exit status and an error message, and never claims success. A run that exits with status 0 has produced its complete output, equal to what the inputs determine. Without a failure the run exits with status 0.",
 ["fault_sequences", "inputs"],
 "all commands over all inputs with a failure injected at any open, read, write, flush or close, including standard output",
 "No test runs the command line, let alone with a failing disk or pipe.",
 ["src/ucis/__main__.py", "src/ucis/cmd/cmd_merge.py", "src/ucis/cmd/cmd_convert.py", "src/ucis/cmd/cmd_report.py", "src/ucis/xml/xml_ucis.py"],
 [("top-level error handling", "src/ucis/__main__.py:main"), ("wrapping of read errors", "src/ucis/cmd/cmd_merge.py:merge")],
 (), ["exit status, standard error/output, output file"])

prop("C06", "Threads working on separate databases do not disturb each other",
 "When several threads of one process concurrently record into, save, read, merge and report databases that they do not share, each thread obtains exactly the results it would obtain alone, under every interleaving, including the first use of each facility by several threads at once. No thread deadlocks or fails because of the others.",
 ["schedules"],
 "all interleavings of 2-4 threads at source-line or bytecode granularity, from a freshly loaded process",
 "All tests are single-threaded; a passing multithreaded test would sample one schedule.",
 ["src/ucis/rgy/format_rgy.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/report/format_rpt_json.py", "src/ucis/xml/xml_writer.py", "src/ucis/xml/xml_reader.py", "src/ucis/merge/db_merger.py"],
 [("lazy singleton guarded by a lock", "src/ucis/rgy/format_rgy.py:FormatRgy.inst"), ("lazily built schema classes", "src/ucis/yaml/yaml_reader.py:getCoverageNS, src/ucis/report/format_rpt_json.py:getCoverageNS"), ("per-call reader/writer/merger objects", "src/ucis/xml, src/ucis/merge")],
 [("process-wide registry and schema caches", "shared by all threads", "class attributes")], ["results of each thread"])

prop("C07", "Observers are safe while one recorder keeps recording",
 "While one thread records into an in-memory database (adding bins and history records, incrementing counts), other threads may iterate it, save it as XML, merge from it or build reports from it: none of these fails, everything recorded before the observation began is in its result, nothing that was never recorded is, and every count seen, and every coverage figure of a report, lies between the value when the observation began and the value when it ended. The recorder's own data is not affected by the observers.",
 ["schedules", "histories"],
 "all interleavings of one recorder with up to three observers at source-line or bytecode granularity",
 "No test is multithreaded.",
 ["src/ucis/mem/mem_scope.py", "src/ucis/mem/mem_scope_iterator.py", "src/ucis/mem/mem_cover_index_iterator.py", "src/ucis/mem/mem_history_node_iterator.py", "src/ucis/xml/xml_writer.py", "src/ucis/report/coverage_report_builder.py", "src/ucis/merge/db_merger.py"],
 [("append-only child lists, index-based iterators", "src/ucis/mem/mem_scope_iterator.py, mem_cover_index_iterator.py")],
 (), ["observer results bracketed by the recorder's progress"])

prop("C08", "An interrupted or failed operation leaves no residue in the process",
 "If an operation (format lookup, read, save, merge, report, command run) is cut off at an arbitrary point by an interrupt, an I/O error or memory exhaustion, then simply retrying it in the same process gives exactly the result it would have given in a fresh process, and later unrelated operations are unaffected as well. The databases that were only being read by the interrupted operation are unchanged.",
 ["crash_points", "fault_sequences", "histories"],
 "every source line of the operation at which an interrupt or allocation failure can surface and every file operation that can fail, from a freshly loaded process, followed by any further operations",
 "No test interrupts anything; there are thousands of interruption points and they are reached only on first use.",
 ["src/ucis/rgy/format_rgy.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/report/format_rpt_json.py", "src/ucis/xml/xml_reader.py", "src/ucis/merge/db_merger.py"],
 [("publish-after-init registry", "src/ucis/rgy/format_rgy.py:FormatRgy.inst"), ("caches assigned only when complete", "getCoverageSchema/getCoverageNS")],
 [("process-wide registry and schema caches", "must not be left half-built", "class attributes")], ["results of the retry and of following operations"])

prop("C09", "Results do not depend on the host environment",
 "Recording, saving, reading, merging and reporting give the same results whatever the time zone (including daylight-saving gaps and overlaps), locale encoding, current date and clock jumps, working directory, hash seed of the interpreter, and whether the user account can be resolved. Dates stored in history records survive a save on one host and a read on another unchanged. Only the explicitly time- or user-dependent stamps (who wrote the file and when, default dates) may differ, and those reflect the host's clock at that moment.",
 ["configurations", "fault_sequences", "inputs"],
 "all time zones, locales, clock values and jumps, user-lookup failures, and changes of them between save and read",
 "Tests run in one environment (UTC, UTF-8, root); none varies it.",
 ["src/ucis/xml/xml_writer.py", "src/ucis/xml/xml_reader.py", "src/ucis/mem/mem_ucis.py", "src/ucis/mem/mem_history_node.py", "src/ucis/user_name.py", "src/ucis/yaml/db_format_if_yaml.py"],
 [("zone-free date conversion", "src/ucis/xml/xml_writer.py:setAttrDateTime, src/ucis/xml/xml_reader.py:getAttrDateTime"), ("explicit UTF-8 files", "src/ucis/xml/xml_factory.py, src/ucis/cmd/cmd_report.py"), ("user-name fallback", "src/ucis/user_name.py")],
 (), ["data read back / report text in another environment"])

prop("C10", "Reports state exactly what the database holds when they are made",
 "At any point of any recording, merging or save/read history, the coverage report (as an object, as text in both formatters, and as JSON, through the library or the command line) lists every covergroup of every top-level instance with its coverpoints, crosses and cover instances, every bin with its count and goal where bins are shown, and coverage percentages that follow from them: a coverpoint or cross is covered in proportion to its normal bins whose count reaches at_least, and covergroups and the total are the weight-averaged values, 0 if there is no weight. Ignore and illegal bins are listed separately and never contribute. Making a report does not change the database or any earlier report.",
 ["histories", "inputs", "fault_sequences"],
 "all database states reachable by recording/merging/save-read histories, observed after every step, with failed report attempts in between",
 "Tests check a few hand-made single-covergroup states; none follows a history or compares formats with each other.",
 ["src/ucis/report/coverage_report_builder.py", "src/ucis/report/coverage_report.py", "src/ucis/report/format_rpt_text.py", "src/ucis/report/format_rpt_json.py", "src/ucis/report/text_coverage_report_formatter.py", "src/ucis/cmd/cmd_report.py", "src/ucis/schema/covreport.json"],
 [("report construction", "src/ucis/report/coverage_report_builder.py"), ("formatters", "src/ucis/report/*.py")],
 (), ["report object, text and JSON"])

prop("C11", "The native UCIS library backend delivers data intact and surfaces failures",
 "When recording, test data or a merge goes to an external UCIS C library, the library receives exactly the objects asked for: names, hierarchy, kinds, weights, sources, flags, source locations, crossed coverpoints, and bin counts up to 64 bits; test data read back equals what was set. If the library reports failure of a creation, test-data transfer, write or close, the caller gets an error; it never gets an object or a success for something the library refused. History records are iterated completely and their iterator is released.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of recording calls and merges into the library with a failure injected at any library call",
 "No UCIS library is available to the tests, so none of this code runs in them.",
 ["src/ucis/lib/libucis.py", "src/ucis/lib/lib_ucis.py", "src/ucis/lib/lib_scope.py", "src/ucis/lib/lib_covergroup.py", "src/ucis/lib/lib_coverpoint.py", "src/ucis/lib/lib_cross.py", "src/ucis/lib/lib_history_node.py", "src/ucis/lib/lib_test_data.py", "src/ucis/lib/lib_cover_data.py", "src/ucis/lib/lib_source_info.py"],
 [("ctypes signatures and structures", "src/ucis/lib/libucis.py, lib_cover_data.py, lib_source_info.py, lib_test_data.py"), ("handle checks", "src/ucis/lib/lib_scope.py, lib_covergroup.py, lib_ucis.py")],
 (), ["state of the (simulated) C library; exceptions raised"])

prop("C12", "Results are snapshots: later changes do not leak between databases",
 "A merged, converted or loaded database, and a report, share no mutable coverage data with the databases they were made from or with each other: recording into, renaming options of, or extending one of them afterwards never changes the data of another, and an earlier report keeps the values it had when it was made. Repeating a read or merge yields a new independent database each time.",
 ["histories"],
 "all histories that interleave merges, loads, conversions and reports with further recording into any of the databases involved",
 "Tests look at a result once, right after producing it, and never modify a source afterwards.",
 ["src/ucis/merge/db_merger.py", "src/ucis/xml/xml_reader.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/report/coverage_report_builder.py"],
 [("fresh cover data per created bin", "src/ucis/coverpoint.py:Coverpoint.createBin"), ("values copied into reports", "src/ucis/report/coverage_report_builder.py")],
 (), ["data of every live database and report after every step"])

prop("C13", "The in-memory database holds exactly what was recorded, in order",
 "After any sequence of recording calls (scopes, instances, covergroups, coverpoints, crosses, cover instances, bins, increments, weights, goals and options, history records and their fields, file handles), iteration with any type mask returns exactly the matching items in creation order with the values last set; an iterator also sees items appended behind it while it runs and never repeats or skips one. A creation call cut off by an interrupt has either taken effect completely or not at all, and objects never share state with siblings or with other databases.",
 ["histories", "crash_points"],
 "all sequences of recording calls, interleaved with live iterators over the same objects, and all interruption points inside creation calls",
 "Tests build a few fixed shapes and iterate them afterwards; no live iterators, interrupts or long histories.",
 ["src/ucis/mem/mem_scope.py", "src/ucis/mem/mem_ucis.py", "src/ucis/mem/mem_covergroup.py", "src/ucis/mem/mem_cvg_scope.py", "src/ucis/mem/mem_cross.py", "src/ucis/mem/mem_history_node.py", "src/ucis/mem/mem_scope_iterator.py", "src/ucis/mem/mem_cover_index_iterator.py", "src/ucis/coverpoint.py", "src/ucis/__init__.py"],
 [("construct, then append", "src/ucis/mem/mem_scope.py"), ("index-based live iterators", "src/ucis/mem/*_iterator.py")],
 (), ["iteration and getter results after every call"])

prop("C14", "Files are closed on every outcome; caller streams are left to the caller",
 "By the time a read, save or command returns or raises - normally or because of an I/O error, invalid data or an interrupt while the file is in use - every file it opened itself, including schema files, has been closed. A stream supplied by the caller is never closed, and streams given to save receive the whole document.",
 ["fault_sequences", "inputs"],
 "all operations with a failure or interrupt at any open, read, write, seek, or during parsing, validation and conversion",
 "Tests never look at file handles and never fail an operation half-way.",
 ["src/ucis/xml/xml_factory.py", "src/ucis/xml/__init__.py", "src/ucis/xml/xml_ucis.py", "src/ucis/yaml/db_format_if_yaml.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/report/format_rpt_json.py", "src/ucis/cmd/cmd_report.py"],
 [("with/finally blocks", "src/ucis/xml/xml_factory.py:XmlFactory.read/write, src/ucis/xml/__init__.py:validate_ucis_xml")],
 (), ["open file objects after each operation"])

prop("C15", "Loading depends on the document, not on how its bytes arrive",
 "Loading an XML or YAML document yields exactly the coverage data the document states, and the same data whether it comes from a path, a text or binary stream, a gzip-compressed file or a string, in whatever chunk sizes the stream delivers it, and regardless of what was loaded before in the same process. A stream that fails part-way makes the load fail, and a document whose cross names a coverpoint that its cover instance does not have is refused.",
 ["inputs", "schedules", "fault_sequences"],
 "all documents of the XML/YAML coverage formats, all chunkings and short reads of a stream, all routes, any sequence of loads in a process",
 "Tests load a few literals through one route, always in one piece.",
 ["src/ucis/xml/xml_factory.py", "src/ucis/xml/xml_reader.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/yaml/db_format_if_yaml.py"],
 [("two-pass validate-then-parse with rewind", "src/ucis/xml/xml_factory.py:XmlFactory.read"), ("stream-based YAML load", "src/ucis/yaml/yaml_reader.py:load")],
 (), ["database returned by each route"])

prop("C16", "Documents that violate the XML or YAML schema are rejected",
 "Loading a well-formed XML or YAML document that does not conform to the published coverage schema (elements or keys missing, misplaced, repeated or unknown, values of the wrong type or out of range) through the XML factory, the YAML reader, the format registry or a merge/convert/report command raises an error (a non-zero exit status) and yields no database and no output - however the bytes are delivered, whatever was loaded, rejected or interrupted before in the same process, and also when the schema itself cannot be read at that moment. Conforming documents keep loading before and after.",
 ["histories", "fault_sequences", "inputs"],
 "all non-conforming documents by every route, in any sequence with conforming ones, with open/read/short-read/interrupt faults on schema and document files",
 "Tests only feed valid documents, each in a fault-free process.",
 ["src/ucis/xml/__init__.py", "src/ucis/xml/xml_factory.py", "src/ucis/yaml/yaml_reader.py", "src/ucis/yaml/db_format_if_yaml.py", "src/ucis/schema/coverage.json"],
 [("XSD validation", "src/ucis/xml/__init__.py:validate_ucis_xml"), ("JSON-schema validation", "src/ucis/yaml/yaml_reader.py:load")],
 [("schema caches", "whether the first use of a schema failed must not decide later verdicts", "class and module attributes")],
 ["exception or database returned; exit status and output files of commands"])

prop("C17", "Published UCIS constants have the values the standard gives them",
 "Every exported scope-type, cover-type, flag and property constant has the numeric value defined by the UCIS standard, so data exchanged with other tools means the same.",
 ["inputs"], "all exported constants",
 "Tests use the constants symbolically.",
 ["src/ucis/scope_type_t.py", "src/ucis/cover_type_t.py", "src/ucis/cover_flags_t.py", "src/ucis/flags_t.py", "src/ucis/int_property.py", "src/ucis/str_property.py"],
 [("enum definitions", "src/ucis/*_t.py")])

prop("C18", "The function-style API is equivalent to the object API",
 "Each implemented UCIS C-style function (create, property get/set, test data, history node, file handle, write, close, time) has the same effect, result and failure as the corresponding method calls, with an absent parent (of a scope, instance or toggle) or object (of a property) meaning the database itself: the same history of calls performed through either API, or through any mixture of the two, leaves equal databases, equal saved files and - on the native library backend - equal library contents, also when individual calls fail.",
 ["histories", "fault_sequences", "inputs"],
 "all histories over the function-style API on the in-memory, XML and library backends, with library-call and file failures and a moving clock",
 "Tests use a subset of the functions on fixed shapes and never compare the two APIs.",
 ["src/ucis/__init__.py"],
 [("delegation", "src/ucis/__init__.py:ucis_*")],
 (), ["every value readable back from the two databases; saved files; exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
