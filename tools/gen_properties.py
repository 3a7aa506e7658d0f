import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

ALLLIB=["pdfer.go","core/parse","core/encrypt","core/write","core/manipulate","core/compare","content/extract","forms","forms/acroform","forms/xfa","resources/font","types"]

p("C01","No input makes the library panic",
 "Whatever bytes, strings, numbers or option values a caller passes to the library, every operation returns normally, with a result or an error. No call ends in an index or slice out of range, a failed type assertion, a division by zero, a negative allocation size, an invalid dynamic pattern, an explicit panic or a process exit.",
 ["inputs"],"All PDF/XFA/font/image byte sequences (truncated, corrupted, hostile) and all argument values of every exported function.",
 "Tests feed a handful of well-formed files; a bounds error needs one specific truncation, offset or length value out of an unbounded space.",
 ALLLIB,[("bounds checks before slicing raw bytes","core/parse/*.go, core/encrypt/*.go, forms/**/*.go, content/extract/*.go"),("comma-ok type assertions","content/extract, forms/acroform, core/compare"),("QuoteMeta around caller text in patterns","forms/acroform, forms/xfa")],observe=["any exported function: process does not panic/exit"])
p("C02","Every operation terminates, also on cyclic or self-referencing files",
 "Every call returns after finitely many steps on every input. Every scanning loop comes closer to its end in every iteration, whatever bytes it meets and also at the very end of the data, and the number of iterations is limited by the size of the data, a fixed limit or a number the caller asked for, never by a number in the file alone. Following references stored in a file (page tree kids and parents, outline items, field kids, cross-reference chains, nested streams) cannot recurse or loop for ever, because each walk either remembers what it has visited or has a fixed depth limit.",
 ["inputs"],"All files, including those whose object graph is cyclic or very deep, and all scanner positions.",
 "Test files are acyclic and well formed; non-termination needs a specific cycle or a specific byte at the end of the input.",
 ALLLIB,[("visited set in the cross-reference chain walk","core/parse/incremental.go"),("page tree, outline and field walks","content/extract/pages.go, content/extract/bookmarks.go, content/extract/images.go, forms/acroform/parser.go, core/manipulate/*.go"),("scanner loops","core/encrypt/parser.go, forms/xfa/xfa_utils.go, forms/xfa/stream.go, content/extract/content_stream.go")],observe=["every exported function returns"])
p("C03","Sizes declared in a file cannot demand unbounded memory",
 "A number read from a file, font or image never by itself decides how much memory is allocated or how many table entries are produced. Each such number is first checked against the amount of data actually present or against a fixed limit.",
 ["inputs"],"All numeric fields of all inputs (counts, lengths, ranges, widths, sizes).",
 "Needs a tiny file declaring a huge count; tests only use honest counts.",
 ["core/parse/xref_stream.go","core/parse/object_stream.go","core/parse/filters.go","core/parse/incremental.go","forms/acroform/stream_rebuild.go","resources/font/font.go","content/extract/encoding.go","forms/xfa"],[("plausibility checks of declared counts","core/parse, resources/font, content/extract/encoding.go")])
p("C04","Same input, same output: results do not depend on map order or clock",
 "Repeating an operation with equal arguments yields equal results: the same bytes, the same objects with the same numbers, the same order of lists, reports and error messages. Only encryption salts and initialisation vectors, and timestamps a caller asked to be filled in, may differ between runs.",
 ["schedules","inputs"],"Every run of the same call; Go map iteration order, the clock and random sources are the only sources of variation and all of their outcomes are covered.",
 "Map iteration order varies per run; a test that passes once may pass by luck and small maps rarely reorder.",
 ["core/write","core/compare","core/manipulate","content/extract","forms/acroform","forms/xfa","resources/font","core/parse"],[("sorting of keys before emitting","core/write/writer.go, core/manipulate"),("order-insensitive accumulation","core/parse, core/compare")])
p("C05","Inputs passed by the caller are never modified",
 "No operation writes to memory the caller handed in: document, template, font, image and stream bytes, password, dictionaries and form-data maps all hold exactly the same content after a call as before it. Updated documents are always built in fresh memory, also when they share a prefix with the input.",
 ["inputs","histories"],"All calls with all inputs, including slices with spare capacity and values reused across calls.",
 "Tests discard the input after the call and rarely compare it; append-aliasing only shows when the input slice continues past the cut point.",
 ["core/parse","core/encrypt","core/write","core/manipulate","content/extract","forms/acroform","forms/xfa","resources/font"],[("rebuilding into new buffers","forms/xfa/xfa.go, forms/acroform/*.go, core/manipulate"),("fresh destination buffers for decryption","core/encrypt/decrypt.go")])
p("C06","Independent calls can run concurrently: no shared mutable state",
 "The library keeps no mutable state outside the values it returns and the objects its caller creates. Encoding tables, glyph lists, error values and other package-wide data never change after program start, so calls on different documents can run concurrently and cannot influence each other.",
 ["schedules","histories"],"All interleavings and all call sequences on distinct documents.",
 "A race or cross-talk needs two documents handled in a particular order or interleaving; unit tests run one document at a time.",
 ["content/extract/encoding.go","types/errors.go","core","content","forms","resources"],[("package tables used read-only","content/extract/encoding.go"),("per-decoder maps","content/extract/encoding.go: font decoder construction")])
p("C07","Encryption never falls back to plaintext",
 "When a document is written with encryption, the data of every stream is emitted either encrypted or not at all: if encrypting or compressing it fails, writing reports an error. When a stream of an encrypted document is read, a failed or unsupported decryption is reported as an error and the undecrypted bytes are never passed off as its content. Cross-reference streams, and metadata of documents that declare it unencrypted, are exempt.",
 ["inputs","fault_sequences"],"All documents and all failures of the cipher, key derivation or random source.",
 "Cipher and random-source failures never occur in unit tests.",
 ["core/write/writer.go","core/write/encryption_v5.go","core/encrypt/decrypt.go","core/parse/get_object.go","core/parse/object_stream.go","forms/xfa/parse_then_decrypt.go"],[("error return of stream encryption","core/write/writer.go"),("error return of object decryption","core/parse, core/encrypt, forms/xfa")])
p("C08","Failures of randomness, compression and output are always reported",
 "If the random source, a compressor or decompressor, a cipher constructor, or the destination writer or file reports an error, the operation that needed it reports an error rather than success: data that could not be decoded is never returned as if it had been decoded, and nothing that was not completely written is reported as written. Best-effort content extraction may leave out a damaged item of a document, but never uses its raw or partial bytes in its place.",
 ["fault_sequences"],"All fault sequences of writers, random source, compressors and the file system at every call.",
 "Unit tests use in-memory buffers that never fail.",
 ["core/write","core/encrypt","core/parse/filters.go","content/extract/directory.go","forms/acroform","forms/xfa","resources/font"],[("error checks after every fallible primitive","core/write/*.go, core/encrypt/*.go, content/extract/directory.go")])
p("C09","Wrapped errors keep their cause",
 "When an operation fails because something beneath it failed, the returned error still contains the original error, so callers can recognise the cause with the standard error inspection functions. A cause is never flattened into text only.",
 ["inputs","fault_sequences"],"Every error path of every operation.",
 "Tests check that an error occurs or match its text; they do not walk the cause chain for each of the error paths.",
 ["types/errors.go","core","content","forms","resources"],[("wrapping with the cause","all packages"),("structured error type with a cause","types/errors.go")])
p("C10","Caller text cannot change the structure of a written PDF",
 "Text supplied by a caller (field names and values, titles, metadata, bookmark labels, watermark and content text, link targets, scripts, font and image names) is written into a PDF only as a properly escaped string or name. No such text can end its own token and introduce other PDF syntax. This does not concern values whose purpose is to pass PDF syntax: raw content, hexadecimal strings, object bodies and dictionaries, destinations and the version.",
 ["inputs"],"All caller strings, including those with parentheses, backslashes, slashes, delimiters, line breaks and text that looks like a reference.",
 "Needs the particular delimiter characters at the particular entry point; tests use plain words.",
 ["core/write","forms/acroform","resources/font","core/manipulate"],[("string escaping","core/write, forms/acroform/*.go"),("name escaping","core/write/writer.go")])
p("C11","Caller values are inserted literally into forms, patterns and XML",
 "A value filled into a form field ends up in the document exactly as the caller gave it, apart from the escaping the format requires. It is never interpreted as a regular expression, a replacement template or XML markup.",
 ["inputs"],"All field names and values, including ones with dollar signs, backslashes, pattern metacharacters, angle brackets and ampersands.",
 "Only values with the special characters of the underlying mechanism expose it.",
 ["forms/acroform/fill.go","forms/acroform/fill_streams.go","forms/acroform/replace.go","forms/acroform/writer.go","forms/xfa/xfa.go","forms/xfa/xfa_datasets_translator.go","forms/xfa/xfa_form_translator.go"],[("literal replacement","forms/acroform"),("pattern quoting","forms"),("XML escaping / encoder","forms/xfa")])
p("C12","Keys, salts and IVs come fresh from the system's secure random source",
 "Every file key, salt and initialisation vector used for encryption is filled completely from the operating system's cryptographic random source, separately for each use. No predictable, constant or reused value ever takes its place.",
 ["histories","fault_sequences"],"All encryptions within and across documents, including when the random source fails.",
 "Outputs that look random pass any test; predictability and reuse cannot be seen from samples.",
 ["core/write/encryption_v5.go","core/write/writer.go"],[("crypto/rand reads","core/write/encryption_v5.go")])
p("C13","Passwords and keys never appear in logs or errors",
 "Neither a password, nor a key or hash computed from one, is ever written to a log, to standard output or standard error, or into an error or warning message, in verbose mode or otherwise.",
 ["inputs","configurations"],"All passwords, all log levels, all success and failure paths.",
 "Tests do not inspect the log and error text for all secrets on all paths.",
 ["core/encrypt","core/write/encryption_v5.go","core/parse","forms/xfa","content/extract","cmd/pdfer"],[("log statements limited to sizes and public fields","core/encrypt/*.go")])
p("C14","A wrong password is always rejected",
 "Opening an encrypted document succeeds only if the supplied password has been verified against the verification data stored in the document, as user or as owner password. There is no path on which a key derived from an unverified password is used to return a success.",
 ["inputs"],"All passwords, all encryption revisions and all contents of the encryption dictionary.",
 "Tests try one right and one wrong password on few revisions; an unverified path needs a particular revision or a damaged dictionary.",
 ["core/encrypt/decrypt.go","core/encrypt/key_derivation.go","core/parse/api.go"],[("comparison of computed and stored verifier","core/encrypt/key_derivation.go, core/encrypt/decrypt.go")])
p("C15","Cross-reference data points exactly at the objects written",
 "In every document that PDFWriter produces, each offset recorded for an object is the position at which that object's header was really written, every object header written has its offset recorded under its own number, cross-reference entries stand at the place of their object number in sections whose first number and count are right, and startxref is the position of the cross-reference table or stream. In object streams the offset listed for an object is where its content starts, counted from First, and the place recorded for it is its index. A number taken for an object is never given to another one: the counter of object numbers is raised above every number used before the next one is taken, and never lowered.",
 ["inputs","histories"],"All sequences of object additions and replacements, all object sizes, all output modes of the writer.",
 "Tests write a few documents and read them back with a tolerant parser; an offset error may only show for one object kind, order or output mode.",
 ["core/write/writer.go","core/write/xref_stream.go","core/write/object_stream.go","core/write/image.go","core/write/bookmarks.go","core/write/page.go"],[("offset recorded from the output position","core/write/writer.go write"),("sections of the cross-reference table","core/write/writer.go write, core/write/xref_stream.go writeXRefStream"),("offsets in object streams","core/write/object_stream.go createObjectStreams"),("monotone object number counter","core/write/writer.go AddObject, SetObject")])
p("C16","Declared stream lengths equal the bytes that follow",
 "Whenever a stream is written or rewritten, its declared length is the length of exactly the bytes emitted between the stream keywords, after compression and encryption. No path emits a stream with a stale, missing, repeated or differently computed length. An object that a caller hands in as finished text is written as it is.",
 ["inputs"],"All stream contents, with and without compression and encryption, on creation and on update.",
 "A tolerant reader hides a wrong length; tests read back with the same tolerant parser.",
 ["core/write","forms/acroform/stream_rebuild.go","forms/acroform/writer.go","forms/xfa/xfa.go","core/write/xfa_builder.go"],[("length set from the emitted byte slice","core/write/writer.go, core/write/xref_stream.go")])
p("C17","What is not implemented is refused, never treated as handled",
 "A stream filter, predictor, PNG row filter, encryption version or revision, security handler, font character-map (cmap) format, JPEG component count or form action type that the library does not implement is answered with an error: the function that decides on it has no successful return for such a value, and in particular never hands the data out raw, decodes it with the decoder of another filter, or applies another version's cipher. Each implemented filter name is decoded by its own decoder, and every filter name the writing side puts into a document is one the reading side decodes.",
 ["inputs","configurations"],"All filter names, predictor numbers, PNG row filters, encryption versions, revisions and security handlers, cmap formats, JPEG component counts and action types.",
 "Tests cover the supported values; the unsupported ones are an open set.",
 ["core/parse/filters.go","core/parse/stream_filters.go","core/encrypt/parser.go","core/encrypt/decrypt.go","core/write/writer.go","core/write/image.go","resources/font/font.go","forms/acroform/actions.go"],[("filter dispatch with error default","core/parse/filters.go DecodeFilter"),("version dispatch","core/encrypt/decrypt.go DecryptObject, core/encrypt/parser.go checkSupported, core/write/writer.go encryptStream"),("cmap format dispatch","resources/font/font.go parseCmap")])
p("C18","The library is silent unless verbose output was requested",
 "With the verbose option off, no call writes anything to standard output, standard error or the log, on success and on failure alike. No operation gives a nested operation a louder setting than the one it was called with.",
 ["inputs","configurations"],"All calls and all paths with verbose off.",
 "Tests do not capture output, least of all on rare error and recovery paths.",
 ALLLIB,[("verbose guards around diagnostics","all library packages")])
p("C19","The library touches only memory, except the documented file helpers",
 "Apart from the helpers documented to read a named file or write extracted content into a named directory, no operation opens files, runs programs, uses the network, or reads environment, host or user information. The file helpers use only the paths they were given and file names built from fixed words and numbers, so no document content can direct them elsewhere.",
 ["inputs","configurations"],"All documents and all operations, including hostile names inside a document.",
 "Tests cannot observe the absence of effects for all inputs.",
 ["content/extract/directory.go","core","content","forms","resources","types"],[("byte-slice based API","pdfer.go and packages"),("file helpers","content/extract/directory.go")])
p("C20","A nil error means a usable result, and a failed call's result is not used",
 "Every operation that returns an error value either succeeds with a usable, non-nil result or reports the error. Inside the library no result of a failed call is used as if it had succeeded, and when a step fails, the operation built on it fails too instead of returning an empty or partial success. Only the reading of single damaged parts of a document may be passed over, by looking for the part in another way or leaving it out.",
 ["inputs","fault_sequences"],"All failing and succeeding paths of every operation that returns an error.",
 "The combination of a failing sub-operation and the following use occurs only on inputs tests do not contain.",
 ALLLIB,[("error check before use","all packages"),("list of reading steps that may be passed over","core/parse, content/extract, forms/xfa")])
p("C21","A failed edit leaves the document as it was",
 "If an editing operation on a loaded document (deleting, inserting, rotating, extracting or merging pages) or a form fill returns an error, the document it was applied to is unchanged, and a later save gives the same output as if the failed call had not been made.",
 ["histories","fault_sequences"],"All sequences of edits with a failure at any step.",
 "Tests check that bad arguments give an error, not what the failed call left behind.",
 ["core/manipulate/deletion.go","core/manipulate/insertion.go","core/manipulate/rotation.go","core/manipulate/extraction.go","core/manipulate/merging.go","core/manipulate/splitting.go"],[("validation before modification","core/manipulate/*.go")],state=[("object table of the manipulator","objects of the loaded document, later written out","core/manipulate/manipulate.go")])
p("C22","Page numbers outside the document are refused",
 "Every operation that deletes, rotates, inserts, extracts or splits pages, or sets bookmarks, refuses a page number below one or above the page count, a range that runs backwards, and a bookmark to a page that does not exist, with an error. It never clamps, wraps or silently skips such a number (inserting also takes the two documented positions for the end). The page count meant is that of the document as edited so far.",
 ["inputs"],"All integers, for every page-taking operation and every position in a list of pages.",
 "Tests try one or two bad numbers on some of the operations.",
 ["core/manipulate/deletion.go","core/manipulate/insertion.go","core/manipulate/rotation.go","core/manipulate/extraction.go","core/manipulate/splitting.go","core/write/bookmarks.go"],[("bookmark pages","core/write/bookmarks.go"),("range checks at the start of page operations","core/manipulate/*.go")])
p("C23","Serialising a document does not change it",
 "Producing the output of a document that is being written, any number of times, leaves the document itself unchanged, so a second serialisation describes the same document and further additions work as before. Inspection calls never modify what they inspect.",
 ["histories"],"All histories of additions, serialisations and inspections in any order.",
 "Tests serialise once at the end.",
 ["core/write/writer.go","core/write/object_stream.go","core/write/xref_stream.go","core/compare","content/extract"],[("serialisation computed from the stored objects","core/write/writer.go")])
# --- not decided
p("C24","Stream data begins behind one line end and is as long as /Length says",
 "When the library takes a stream's data out of a document by its /Length, the data is exactly as many bytes as the number says, nothing taken off. The data begins right behind the stream keyword and exactly one line end, also when it begins with a line end or white space itself (data that only a zlib reader sees cannot). A /Length given as a reference (/Length 12 0 R, with any white space and generation) is never taken for the number 12, also not for the key length of an encrypted document: the end of the data is found in another way, or the operation fails. Where data that is then decrypted or encrypted is cut at the endstream keyword instead, the line end before the keyword is not part of it.",
 ["inputs"],"All documents, with direct and referenced lengths in every spelling the format allows.",
 "The documents of the tests were mostly written by this library, which always writes direct lengths; other producers usually write references.",
 ["core/parse/get_object.go","core/parse/object_stream.go","core/encrypt/parser.go","core/write/writer.go","core/write/xfa_builder.go","content/extract/images.go","forms/xfa/xfa.go","forms/xfa/xfa_utils.go","forms/acroform/stream_rebuild.go"],[("length taken only if it is no reference","core/parse/get_object.go GetDirectObject, core/parse/object_stream.go GetObjectFromStream, content/extract/images.go"),("line end taken off before decryption","core/parse/get_object.go, core/write/writer.go trimEOL")])
p("C25","What is found in a document does not depend on its white space",
 "Wherever the library looks for an entry of a document (a name and its value, a name and the opening of an array or dictionary, a keyword and a number), it finds it whatever white space the format allows between them: blanks, tabs, line ends of either kind, several of them, and none where the value begins with a delimiter, as in /FT/Tx, /Fields[3 0 R] or /Type/Page. A value that is read is never a part of the array, string or dictionary that stands there.",
 ["inputs"],"All spellings of white space the format allows in the entries the library searches for.",
 "The documents of the tests use the two or three spellings of their producers.",
 ["core/parse","core/encrypt/parser.go","core/write/xfa_builder.go","content/extract","forms/acroform/parser.go","forms/xfa"],[("constant search patterns and texts","core/parse/xref_stream.go, forms/acroform/parser.go, content/extract/resources.go")])
p("C30","Written documents read back equal",
 "A document produced by the writer and read back by the parser yields the same objects, page content, form values, metadata and attachments that were put in.",
 ["inputs","histories"],"All documents the writer can build.","Value equality over all contents.",["core/write","core/parse"],[("writer and parser","core/write, core/parse")])
p("C31","Decryption yields exactly the original plaintext",
 "For the correct password, decrypting strings and streams of any supported encryption yields exactly the original plaintext, and encrypting then decrypting is the identity.",
 ["inputs"],"All keys and plaintexts.","Numerical result of ciphers and key derivations.",["core/encrypt","core/write/encryption_v5.go"],[("cipher code","core/encrypt")])
p("C32","Text comparison is correct and minimal",
 "The reported differences turn the first text into the second exactly, and equal documents are reported as equal.",
 ["inputs"],"All pairs of texts and documents.","Value-level correctness of a diff algorithm.",["core/compare"],[("Myers diff","core/compare/myers_diff.go")])
p("C33","Extracted text and positions match what a viewer shows",
 "Extracted text, fonts, positions and graphics correspond to the rendered page.",
 ["inputs"],"All content streams.","Depends on interpreting run-time numbers.",["content/extract"],[("content stream interpreter","content/extract/content_stream.go")])
p("C34","Page edits keep all other content",
 "Deleting, inserting, rotating, splitting or merging pages keeps every other page's content, resources, order and inherited attributes.",
 ["inputs","histories"],"All documents and edit histories.","Value-level equality of object graphs.",["core/manipulate"],[("page tree edits","core/manipulate")])
p("C35","The newest revision of every object is the one that is read",
 "In a document with incremental updates, every lookup yields the newest version of an object, and deleted objects are absent.",
 ["inputs","histories"],"All update histories.","Value-level comparison over run-time revision histories.",["core/parse/incremental.go","core/parse/document.go"],[("revision merge","core/parse/incremental.go")])
p("C36","Fonts are embedded with correct glyphs and widths",
 "Glyph mapping, widths and subsets of embedded fonts equal those of the source font.",
 ["inputs"],"All fonts and texts.","Numerical equality of table contents.",["resources/font"],[("table parsers","resources/font/font.go")])
p("C37","XFA translation keeps all form information",
 "Translating XFA form, data, style and configuration packets to structured values and back keeps all questions, rules, values and options.",
 ["inputs"],"All XFA packets.","Round-trip equality of values.",["forms/xfa"],[("translators","forms/xfa/*.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
