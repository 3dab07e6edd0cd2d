#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
SEAM = "none in /repo: the check rebuilds the current tree with its os/io/ioutil/sync imports, map iteration and loop heads routed through a simulator (tools in /verif/sim)"
OUT = ["return value of the parse call", "commands.txt, contents.txt, errors.txt, files.txt, javascript.js, raw.pdf, urls.txt and the extracted files"]

p("C01", "Results do not depend on how the file's bytes arrive",
  "For any input file, intact or damaged, everything a parse produces (its error result, every output file, every object read through the library) is the same however the underlying reader divides its reads: short reads ending at any byte, end-of-file delivered together with or after the last bytes, and any placement of the file's structures relative to read-buffer boundaries. Only the bytes of the file matter.",
  ["schedules", "inputs"],
  "every sequence of read sizes an io.Reader may legally return, for every file, with every structure placed at every offset relative to those reads",
  "The tests read tiny files through os.File, which always fills a 4096-byte buffer in one read, so no structure ever straddles a read boundary.",
  ["pdf/parser.go", "pdf/utility.go"],
  [("token and stream readers", "pdf/parser.go ReadDictionary/ReadStream/ReadObject/getStartXrefOffset"), ("seek resets the buffer", "pdf/parser.go Seek/CurrentOffset")],
  [("read buffer", "bytes fetched but not yet consumed", "pdf/parser.go Parser")], OUT, SEAM)

p("C02", "Parsing the same file again extracts the same content",
  "Parsing the same bytes with the same password always gives the same error result, the same extracted files and, up to the order of entries and of dictionary keys, the same content in every output file. The order in which internal collections happen to be visited never adds, drops or changes an artefact; page text keeps its document order.",
  ["schedules", "inputs"],
  "every iteration order of every internal collection, for every input",
  "Go randomises map iteration per run; a test run samples one order and the unit tests never run the extraction at all.",
  ["pdf/pdf.go", "pdf/object.go", "pdf/parser.go", "pdf/dictionary.go", "pdf/encryption.go", "pdf/page.go"],
  [("per-object extraction loop", "pdf/pdf.go Parse"), ("xref merge and repair loops", "pdf/parser.go Load/loadXrefTable")],
  [("cross-reference map", "object number to location", "pdf/parser.go Parser.Xref")], OUT, SEAM)

p("C03", "Parses in one process do not influence one another",
  "When several parses, of the same or of different files and into different output directories, run in one process, one after another or interleaved at any point, each produces exactly what it produces when it runs alone. This includes passwords, fonts, decryption keys, error logs and parses that fail half-way.",
  ["schedules", "histories"],
  "every interleaving and every order of parse calls, with any mix of documents, passwords and failing inputs",
  "No test runs two parses at once or compares a later parse with a fresh one.",
  ["pdf/parser.go", "pdf/font.go", "pdf/encryption.go", "pdf/output.go", "pdf/page.go"],
  [("per-call parser, output and security handler", "pdf/pdf.go Parse, pdf/parser.go NewParser"), ("shared default font and null filters are never written", "pdf/font.go FontDefault, pdf/encryption.go noFilter")],
  (), OUT, SEAM)

p("C04", "Every parse finishes",
  "For any input bytes, any storage damage, any password and any sequence of read and write failures, a parse returns a result or an error after an amount of work and memory bounded by the size of the file and of its decoded streams. It never panics, never kills the process, never loops or recurses without bound, also when reference, page-tree, name-tree and cross-reference links form cycles.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte string, every damage to a well-formed file, every I/O failure at every call",
  "Two tests cover one reference cycle and one cross-reference cycle; hostile numbers, damaged structures and I/O failures are never tried.",
  ["pdf/parser.go", "pdf/reference.go", "pdf/dictionary.go", "pdf/font.go", "pdf/filters.go", "pdf/encryption.go", "pdf/utility.go", "pdf/logger.go"],
  [("visited sets", "pdf/parser.go loadXref, pdf/reference.go resolve, pdf/dictionary.go getNameTreeMap/ResolveKids"), ("end-of-data errors end every loop", "pdf/parser.go ReadObject")],
  (), ["the parse call returns", "step and allocation counters of the simulator"], SEAM)

p("C05", "Success is never reported over failed I/O",
  "If a parse reports success, every output is complete: identical to what the same parse writes when no operation fails. A failed open, read, seek, create, write, short write or close, at any point of the parse, is therefore visible to the caller as an error and is never turned into silently missing or truncated output.",
  ["fault_sequences"],
  "every input and output operation failing, once or persistently, fully or partially, with any error",
  "No test injects a read or write failure.",
  ["pdf/pdf.go", "pdf/output.go", "pdf/parser.go", "pdf/object.go", "pdf/page.go", "pdf/file.go", "pdf/action.go"],
  [("error result", "pdf/pdf.go Parse"), ("output files", "pdf/output.go NewOutput/DumpFile/Error/Close")],
  (), OUT, SEAM)

p("C06", "The output directory holds exactly the last parse's results",
  "After a parse that reports success the output directory contains exactly the seven report files and the files extracted by that parse, whatever it contained before. In particular, results of an earlier parse, and the remains of a parse killed at any point, leave no trace, and re-running a parse after such a crash gives the same directory as a run that was never interrupted.",
  ["crash_points", "histories", "fault_sequences"],
  "every prior state of the output directory, every point at which an earlier run is killed, every failure while the directory is being prepared",
  "The tests never create an output directory.",
  ["pdf/output.go", "pdf/pdf.go"],
  [("directory is recreated", "pdf/output.go NewOutput")],
  (), ["the files below the output directory after the parse"], SEAM)

p("C07", "A parse touches nothing outside its output directory",
  "Whatever the document says, and whichever operations fail, a parse only creates, changes or removes files inside the output directory it was given: the input file (lying outside that directory) and every other file keep their contents. Names and paths that come from the document never become file names; extracted files are named by the hash of their content.",
  ["inputs", "fault_sequences", "crash_points"],
  "every document content (names, paths, separators, control bytes), every failure or crash point",
  "The tests never run the extraction.",
  ["pdf/output.go", "pdf/file.go", "pdf/object.go", "pdf/pdf.go"],
  [("content-hash file names", "pdf/output.go DumpFile")],
  (), ["every file-system operation the parse performs"], SEAM)

p("C08", "Every file a parse opens is closed when it returns",
  "When a parse returns, on success and on every error path, each file it opened has been closed exactly once and nothing is written to a file after it was closed. A long-running program can therefore parse any number of files without leaking descriptors.",
  ["fault_sequences", "histories"],
  "every return path: each possible failing operation, wrong passwords, repeated parses",
  "Leaked descriptors are invisible to the unit tests, which never create outputs.",
  ["pdf/pdf.go", "pdf/output.go"],
  [("deferred closes", "pdf/pdf.go Parse, pdf/output.go Close")],
  [("output handles", "the seven report files", "pdf/output.go Output")], ["open-handle table of the simulated file system"], SEAM)

p("C09", "The newest revision of every object wins",
  "In a document built by any sequence of complete incremental updates, whether cross-references are tables or streams or a mix, split into any subsections, chained in any way, every object resolves to the value written by the latest revision that wrote it. Objects the latest revision deleted resolve to null and contribute nothing to any output; superseded versions contribute nothing either.",
  ["histories", "configurations"],
  "every history of object writes, overwrites and deletions over any number of revisions and any physical layout of the file",
  "Two tests look at one two-section chain each and check only entry counts or one object.",
  ["pdf/parser.go", "pdf/xref.go", "pdf/reference.go", "pdf/pdf.go"],
  [("previous sections are merged first, newer ones override", "pdf/parser.go loadXref/loadXrefTable/loadXrefStream/Load")],
  [("cross-reference map", "object number to newest location", "pdf/parser.go Parser.Xref")], ["objects read through the library", "all output files"], SEAM)

p("C10", "Objects survive damage to the cross-reference data",
  "When storage damage hits only the cross-reference data (start pointer, section keywords, entries damaged or overwritten in any way, whole tables or trailers lost, or every offset shifted by inserted bytes), each object whose body is intact can still be read, with the value of its newest copy in the file if no undamaged entry locates it. Objects whose entries are undamaged keep the value those entries point to.",
  ["fault_sequences", "histories"],
  "every damage pattern confined to cross-reference bytes of any document",
  "One test repairs one wrong offset in one file.",
  ["pdf/parser.go"],
  [("scan for objects and sections", "pdf/parser.go findObjects/findXrefOffsets"), ("entry repair", "pdf/parser.go Load")],
  [("cross-reference map", "object number to location", "pdf/parser.go Parser.Xref")], ["objects read through the library", "all output files"], SEAM)

p("C11", "A torn update never harms what was written before it",
  "If the last update of a document is cut off at any byte (interrupted save, lost tail), the parse still succeeds and every object of the previous complete revision is still readable: with its previous value, or, where the update had already completely written a new value for it, with that value. No object turns into a fragment, disappears or takes another object's value.",
  ["crash_points", "histories"],
  "every truncation point inside the last revision of every document",
  "The truncation tests each hold a single object cut at one place, with no previous revision.",
  ["pdf/parser.go"],
  [("older sections stay loaded", "pdf/parser.go Load"), ("repair only replaces entries that point at nothing usable", "pdf/parser.go Load")],
  (), ["objects read through the library"], SEAM)

p("C12", "Decryption is transparent",
  "A document encrypted with the standard security handler (revisions 2 to 4; RC4 with any 40 to 128 bit key or AES; default and per-stream crypt filters, identity filters, embedded-file filters, metadata left unencrypted, any object and generation numbers) and parsed with its user password produces the same text, links, commands, scripts, files and object values as the same document unencrypted. Encryption of one object never affects another.",
  ["inputs", "configurations", "schedules"],
  "every document, password, key length, algorithm and crypt-filter assignment, under every read schedule and xref layout",
  "One RC4 file with an empty password is checked, looking at one string and eight bytes of one stream; AES and crypt filters are never exercised.",
  ["pdf/encryption.go", "pdf/parser.go"],
  [("key derivation and verification", "pdf/encryption.go Init/computeEncryptionKey"), ("per-object decryptors", "pdf/encryption.go NewDecryptor, pdf/parser.go GetObject")],
  [("crypt filters", "string, stream and embedded-file filters in force", "pdf/encryption.go SecurityHandler")], OUT, SEAM)

p("C13", "Without the right key nothing is extracted",
  "Parsing an encrypted document with a wrong password returns the incorrect-password error, and a document whose encryption is unsupported or whose encryption data is missing returns an error saying so. In none of these cases, nor when the stored key material was damaged, does the parse report success or write text, links, commands, scripts, extracted files or raw objects.",
  ["inputs", "fault_sequences"],
  "every wrong password, every unsupported handler, version or revision, every damage to the stored password check values or document id",
  "No test uses a wrong password or an unsupported or damaged encryption dictionary.",
  ["pdf/encryption.go", "pdf/pdf.go", "pdf/parser.go"],
  [("password verification", "pdf/encryption.go Init"), ("load errors stop the parse", "pdf/pdf.go Parse, pdf/parser.go Load")],
  (), OUT, SEAM)

p("C14", "Streams decode exactly, and a torn stream to a prefix",
  "For any data, any chain of the supported filters (hex, base-85, run-length, flate, LZW with either code-width rule, with or without predictors) and any position of the stream in the file, the decoded stream equals the original data byte for byte, also when its Length entry is missing or wrong and the data does not contain the end marker. If the file is cut off inside the stream, the result is a prefix of the original data or, where a filter cannot decode what is left, of the data as it stands before that filter, never other data.",
  ["inputs", "crash_points", "schedules"],
  "every data, filter chain, stream position, read schedule and truncation point",
  "Each filter has one sample string; no test truncates or re-positions a filtered stream.",
  ["pdf/filters.go", "pdf/parser.go"],
  [("filter chain", "pdf/parser.go ReadStream, pdf/filters.go DecodeStream"), ("end-of-stream detection", "pdf/parser.go ReadStream")],
  (), ["decoded streams read through the library", "raw.pdf", "extracted files"], SEAM)

p("C15", "Page text is extracted completely and in order",
  "For every page of the document, in page-tree order, each string shown by a text operator inside a text block appears in contents.txt exactly once, in content-stream order, decoded through the to-unicode map of the font selected at that point (single codes, consecutive ranges and ranges with a value for each code, one- or two-byte codes; unmapped codes unchanged); nothing else appears there, in particular no string shown outside a text block and no part of an inline image. This holds for any nesting of the page tree, any split of the content into several streams at operator boundaries, any filters and encryption, and any read schedule or lost cross-reference data.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every page tree, content stream and font map, in every physical layout and delivery",
  "No test runs page or font extraction beyond timing one map load.",
  ["pdf/page.go", "pdf/font.go", "pdf/dictionary.go", "pdf/object.go"],
  [("text operator interpreter", "pdf/page.go extract"), ("to-unicode maps", "pdf/font.go NewFont/Decode"), ("page tree walk", "pdf/dictionary.go ResolveKids")],
  [("current font", "font in force inside a text block", "pdf/page.go extract")], ["contents.txt"], SEAM)

p("C16", "Every link, script and command is reported",
  "Every URI, base URI, URL name-tree entry and URL file specification in the embedded-files name tree or in an action appears in urls.txt, every script (string or stream) in javascript.js, and every program or file a launch action runs, with its parameters, in commands.txt: once per occurrence, unchanged, and nothing else appears there. It does not matter where in the document the action sits (open action, additional actions, the action of an annotation or outline item, a chain of following actions, nested in dictionaries and arrays, as indirect values, in any live object), nor how the file is laid out, delivered or cross-referenced.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every set of actions and every placement, in every layout, revision history and delivery",
  "No test runs the extraction of actions.",
  ["pdf/object.go", "pdf/action.go", "pdf/file.go", "pdf/dictionary.go", "pdf/pdf.go"],
  [("recursive extraction", "pdf/object.go extract"), ("action and file specification handling", "pdf/action.go, pdf/file.go")],
  (), ["urls.txt", "javascript.js", "commands.txt"], SEAM)

p("C17", "Embedded files are extracted intact and the manifest is true",
  "Every embedded file reached through the embedded-files name tree or the file specification of an action, and every form of the document, is written to the output directory with exactly its original bytes, under the MD5 hash of those bytes, and files.txt has one line hash:path for it; every external file reference in those places has one line with the all-zero hash. After a successful parse each non-zero hash in files.txt names a file whose content has that hash, and there are no other extracted files.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "every set of embedded and external files, every name, content, filter, encryption and layout, every delivery and every output failure",
  "No test runs the extraction of files.",
  ["pdf/output.go", "pdf/file.go", "pdf/object.go", "pdf/action.go", "pdf/dictionary.go"],
  [("hashing and dumping", "pdf/output.go DumpFile"), ("file specifications", "pdf/file.go Extract"), ("embedded-file name tree", "pdf/dictionary.go GetNameTreeMap")],
  (), ["files.txt", "extracted files"], SEAM)

p("C18", "The error log is complete and has no false entries",
  "A well-formed document leaves errors.txt empty, and each documented abnormality in a live object (bad dictionary key, missing value, bad hex digit, bad or needless escape, octal overflow) adds its message and no unrelated one. When the file is cut off inside an object, the log names the innermost construct left open.",
  ["inputs", "crash_points"],
  "every abnormality at every place in every document, every truncation point inside an object",
  "The tests never look at the error log.",
  ["pdf/parser.go", "pdf/errors.go", "pdf/output.go"],
  [("abnormality logging", "pdf/parser.go log_error and its call sites")],
  (), ["errors.txt"], SEAM)

p("C19", "Reading objects has no memory",
  "The value and stream returned for an object, and the result of resolving any reference, do not depend on which objects were read or which references were resolved before, in what order or how often, nor on results the caller modified; a missing or cyclic reference resolves to null. Resolving a reference in the middle of reading something else does not disturb that reading.",
  ["histories", "schedules"],
  "every sequence of object reads, resolutions and low-level reads on one parser, over any document",
  "Each test performs one read on a fresh parser.",
  ["pdf/parser.go", "pdf/reference.go", "pdf/dictionary.go", "pdf/array.go"],
  [("position is saved and restored", "pdf/reference.go Resolve/ResolveStream"), ("per-call visited set", "pdf/reference.go resolve")],
  [("parser position", "offset of the next byte to parse", "pdf/parser.go CurrentOffset/Seek")], ["objects read through the library"], SEAM)

p("C20", "The command refuses to overwrite and reports failure",
  "Without the overwrite option the command never changes an output path that exists, or whose existence cannot be determined, and says so; with the option, or with a fresh path, it produces exactly the library's results for the given password. A parse that fails always leaves a message on the error stream.",
  ["fault_sequences", "configurations", "inputs"],
  "every argument combination, every prior state of the output path, every failure of the existence check or of the parse",
  "The command has no tests.",
  ["main.go"],
  [("existence check", "main.go main"), ("error report", "main.go main")],
  (), ["file-system effects and standard streams of the command"], SEAM)

p("C21", "raw.pdf holds every live object, decrypted and decoded",
  "After a successful parse raw.pdf contains each live, non-compressed object of the document exactly once, with its number and generation, its value with all strings decrypted, and its stream decrypted and decoded, and contains no deleted or superseded object. Values read back from it equal the document's values for all strings and names that need no escaping.",
  ["inputs", "histories", "schedules", "configurations"],
  "every document, revision history, encryption and layout, under every delivery and iteration order",
  "No test writes raw.pdf.",
  ["pdf/pdf.go", "pdf/object.go", "pdf/dictionary.go", "pdf/array.go", "pdf/number.go", "pdf/name.go", "pdf/string.go", "pdf/keyword.go", "pdf/reference.go"],
  [("object dump", "pdf/pdf.go Parse, pdf/object.go String")],
  (), ["raw.pdf"], SEAM)

p("C22", "Respelling a document hides nothing",
  "Two spellings of the same document (escaped or plain names and strings, hex or literal strings, comments and any white space between tokens, direct or indirect values, object order, line endings, filters) give the same text, links, commands, scripts and files. Only the log of abnormalities and raw dump may differ.",
  ["inputs", "configurations", "schedules"],
  "every pair of spellings of every document, each under its own delivery and iteration order",
  "A handful of tests check single escapes and comments; none compares whole extractions.",
  ["pdf/parser.go", "pdf/object.go", "pdf/dictionary.go"],
  [("tokeniser", "pdf/parser.go ReadName/ReadString/ReadHexString/consumeWhitespace"), ("transparent references", "pdf/dictionary.go GetObject, pdf/array.go GetObject")],
  (), ["contents.txt, urls.txt, commands.txt, javascript.js, files.txt and the extracted files"], SEAM)

p("C23", "Passwords can be tried in any order on one parser",
  "On one parser, every attempt with a wrong password (loading, or setting it afterwards) returns the incorrect-password error and every attempt with the right one succeeds, whatever was tried, loaded or read before. From the first success on, every object reads exactly as if the right password had been given at once; wrong attempts and repeated loads after it change nothing. Setting a password on a document that is not encrypted returns the encryption error and changes nothing.",
  ["histories", "inputs", "schedules"],
  "every sequence of loads, passwords and reads on one parser, over every encryption, layout and damage to the object indexes",
  "Each test loads a document once, with the right password.",
  ["pdf/encryption.go", "pdf/parser.go"],
  [("filters are replaced only after the password was verified", "pdf/encryption.go Init"), ("objects are decrypted when read", "pdf/parser.go GetObject")],
  (), ["errors returned by Load and SetPassword", "objects read through the library"], SEAM)

p("C24", "Damage to an object leaves the others as they are",
  "If bytes of one object, or of a block of the file that holds objects but no cross-reference data, are overwritten, the document still loads and parses, every other live object reads exactly as before, deleted ones stay deleted, and the links, scripts, commands, files and page texts that come from other objects are still in the output. If only copies that a later revision replaced or deleted are damaged, nothing that was extracted before is lost or changed. A stream whose length stands in the damaged object still reads in full wherever its end marker tells its end.",
  ["inputs", "schedules"],
  "every object of every document (live or superseded) x every way its bytes can be overwritten, under any read schedule and iteration order",
  "The tests contain no file with one broken object among good ones, and none compares the good ones with what they were.",
  ["pdf/parser.go", "pdf/pdf.go", "pdf/object.go"],
  [("objects are found and read independently", "pdf/parser.go findObjects/getObject"), ("every object is extracted", "pdf/pdf.go Parse")],
  (), ["objects read through the library", "all reports and extracted files"], SEAM)

p("C25", "A file that was cut off keeps every object before the cut",
  "If the end of a document that is not encrypted and has no updates is missing, wherever it is cut off, it still loads and parses without error. Every object that is complete reads as in the whole document, every object that begins behind the cut reads as null, and the links, scripts, commands, files and page texts that depend on complete objects only are all in the output.",
  ["inputs", "crash points", "schedules"],
  "every byte position at which any document can end, for every kind and place of the cross-reference data",
  "The tests contain a few files without an index, none of them compared with the whole document, and none cut at arbitrary places.",
  ["pdf/parser.go", "pdf/pdf.go", "pdf/dictionary.go"],
  [("objects are found without an index", "pdf/parser.go findObjects, Load"), ("entries that lead nowhere", "pdf/parser.go getObject")],
  (), ["objects read through the library", "all reports and extracted files"], SEAM)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
