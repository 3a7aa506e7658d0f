CHECKS["C05"]=("interprocedural origin/mutation analysis on SSA","Every write site of the module is checked against all memory reachable from slice and map parameters of exported functions. Trusts a table of which standard library calls write or return views of their arguments; no unsafe or reflect writes exist in the module.")
CHECKS["C21"]=("points-to analysis + path analysis of error exits","All exported editing methods: no path to a possibly non-nil error return after a write to receiver memory. Callees are summarised; success and failure edges are separated by the nil test on the error.")
CHECKS["C23"]=("entry-specific points-to / purity analysis","For every serialisation and inspection entry, no reachable instruction writes memory reachable from receiver or arguments.")
CHECKS["C06"]=("effect analysis on SSA: package variables, process state and goroutine writes","Every package variable is shown to be written only by package initialisers, directly and through every alias; exported slices and maps of package data, process-state calls and goroutine-shared writes are listed and judged. State reached only through unsafe or cgo is out of scope; the module has none.")
CHECKS["C09"]=("value-flow check on error construction sites","For every error return and error construction under a failure, the cause must be carried by %w, errors.Join, or a module error type with Unwrap; formats are resolved as constants. A function that reports only (nil, bool) failures is not an error source.")
CHECKS["C12"]=("provenance analysis of key, salt and IV buffers","Each use as IV, salt or file key is traced to buffers and each must be completely filled by crypto/rand on every path before use, once per use, with no other write in between.")
CHECKS["C18"]=("path-condition analysis of print and log calls","Each reachable write to stdout, stderr or the log must be dominated by a true test of a value that is the caller's verbose setting; each nested verbose setting must be false or be implied by the caller's.")
CHECKS["C19"]=("call-graph effect analysis with path provenance","Host calls are whitelisted per documented helper; the path arguments of the helpers are traced to their parameters, constants and integers.")
CHECKS["C04"]=("order-effect analysis of loops over maps","Each loop over a map is shown to have effects that commute between iterations, or to collect lists that are sorted by a total order before any order-dependent use, followed through callees and callers; clock, random and environment reads are judged by path conditions. Comparison functions are assumed total unless they compare one lossy property (length, case-folded text, quotient).")
CHECKS["C13"]=("interprocedural taint analysis from passwords and keys to output and error sites","Explicit flows only: lengths, comparisons and branches on secrets are not content. Text passed to a caller-supplied callback or writer is out of scope.")
CHECKS["C14"]=("path-sensitive typestate: password verified before success, open failures never accepted","All paths of all opening functions, through helpers and flags. The comparison must cover a fixed range of at least 16 bytes depending on the password; that the compared value is the right hash of the password is not decided.")
CHECKS["C08"]=("path-sensitive error-propagation analysis on SSA","All paths after each call to a cipher constructor, compressor, decompressor, random source, destination writer or file must end in a reported error (or, in content extraction, leave the item out). Calls are recognised by type and package; decode helpers of the module are found by summary.")
CHECKS["C07"]=("path-sensitive data-state analysis of stream bytes: ciphered, exempt or failed","Every use of stream data read from or written to an encrypted document is on all paths preceded by a cipher that succeeded, or lies on a path that establishes no encryption or an exempt kind of stream; failures of ciphers are followed to a reported error. Strings outside streams are not covered (the library stores and returns them as they are).")
CHECKS["C01"]=("bounds analysis: linear inequalities over SSA values, proved from dominating tests, loop induction and call summaries","Every index, slice, make, division, type assertion, fixed-width access, dynamic pattern, block-cipher call and explicit exit of the library is an obligation. A few dozen sites whose proof needs facts the analysis cannot express (contents of tables, results of arithmetic on runtime contents) are listed in tool/c01.go by function and kind with a count; they are not claimed. Nil dereference and exhaustion of memory or stack are not covered.")
CHECKS["C22"]=("path analysis with linear inequalities over page numbers and page tables","All paths of all page-taking operations (a table of nine parameters, plus any exported parameter named like a page number), through helpers that check or delegate. That the page table lists the pages in the right order is not decided; the page argument of the form-field builders is unused by the library and not covered.")
CHECKS["C20"]=("path exploration after every failing library call (SSA), with a list of skippable reading steps and look-through of helpers",
 "sound for paths within a function up to the exploration bound; failures of skippable reading steps and of standard library parsers are not judged, and functions without an error result may drop failures")
CHECKS["C02"]=("ranking-function analysis of all loops and recursion-bound analysis of the call graph","Every loop of the library must have a linear measure over its variables (or a visited set, a halving, or a reader that moves forward on every way round) that is shown to make progress on all ways round the loop and to be limited by lengths, fixed limits or caller numbers; every call-graph cycle must insert into a visited set that guards it, count a depth that is compared with a limit, or go down into a part of what it was given. Assumes that the io.Seeker contract holds for the module's own reader, and that structures the caller passes in are not cyclic. Time spent in the standard library is not counted.")
CHECKS["C10"]=("interprocedural backward text-flow analysis with lexical position, and per-character constant propagation through escaping functions","Every text that can become part of a document, content stream or form that the writing packages hand out is traced back to constants, numbers and caller text, with the position in PDF syntax it takes. Caller text must pass a function that is shown, for every ASCII character and samples of the others, to add nothing that ends the token. Text inside a document the caller passes in is not caller text. Values passed for their PDF syntax (ContentStream.Raw, ShowTextHex, SetVersion, destinations, []byte bodies, dictionaries) are exempt.")
CHECKS["C11"]=("provenance of interpreted arguments, alteration tracking between caller and escaper, and per-character reversibility of escaping functions","Every regular expression, replacement template and format string of the library is shown to be made of constants, numbers and quoted text. From each escaping of a form value (PDF string, XML escaper, XML encoder token) the text is followed back to the caller's form data or structure field: no trimming, cutting, recasing, replacing or rounding lies between. Every escaping function in use is shown, for every ASCII character and samples of the others, to give text that a reader turns back into that character. XML written as text takes caller text only through an XML escaper; element names of the caller pass a check that keeps special characters out; raw encoder tokens are constant. What a value is formatted to by %v is taken as its text.")
CHECKS["C17"]=("conditional constant propagation of dispatching functions with values that are not implemented","Every function that dispatches on a filter name, predictor, PNG row filter, encryption version, revision or handler, cmap format, JPEG component count or action type is evaluated (through helpers, tables and error results) with several unimplemented values: no return with a nil error stays reachable. A branch on such a value that cannot be folded makes the function undecided (counted in the evidence, none on the current tree). Crypt filter methods and filter arrays are not decided.")
CHECKS["C03"]=("bound analysis of allocation sizes and of loops that allocate","Every size given to make, Repeat, Grow and buffered readers must be limited at that place, with what dominating tests establish, by lengths of data in memory, fixed limits, 16-bit ranges or numbers of the caller; products only with a fixed factor. Image decoders need a comparison of the header's area before. Every loop that allocates must have an argument that limits its number of iterations the same way (as in C02). The expansion of compressed data is not a declared number and is not limited; sizes of 16 bits are accepted as limited by their range.")
CHECKS["C16"]=("backward dataflow over the text written, with a state analysis of stream dictionaries","From every place that writes the endstream keyword (appends, concatenation, formats, buffers, joins, helper functions and their callers) the text is followed backwards on all paths: exactly one piece of data up to the stream keyword, and in front of it exactly one /Length, computed as len of that very value. Dictionaries written from maps are tracked entry by entry (Length with and without slash: absent, right, wrong) through updates, deletes, copies and helpers; dictionary text of an existing object counts as free of a length only where a pattern that covers the whole entry, reference included, was cut out or is known not to match. Stream objects put into a writer's table must have the right entry there. Objects handed in as finished text are not judged; parseObjectStructure in forms/xfa is not reachable from the API and not judged.")
CHECKS["C15"]=("path analysis of output positions and a counting analysis (linear invariants) of cross-reference entries","For each buffer that a document with a startxref is written to, all paths through the functions that write to it are walked: lengths recorded in a table of positions are followed by the header with the same number, headers are preceded by a recorded length on every path, startxref is the length right before the table or stream. Entries are counted: at each block a linear form of program variables is found (candidates from the joins, kept if inductive) for the number whose turn it is and the number of entries in the section, and used to show the key of each in-use entry and the first number and count of each section. The last section of a cross-reference stream is shown only on the way on which the loop ends at the stream's own number (that the list of numbers contains it is not decided). The width of offsets in cross-reference streams is not decided. Files edited in place by forms/* are not covered: their offsets are not updated.")
CHECKS["C24"]=("conditional constant propagation and dataflow of the digits behind /Length","Every function whose regular expression captures the digits behind /Length is evaluated with the entry as a reference (45 spellings) and as a number, following helpers and callers: on branches that stay possible, the digits of a reference reach no slice bound, allocation, stored value or caller, and those of a number, also a large one, end a slice that begins where the data begins and that nothing is taken off again. From each search for the stream keyword the ways on are followed with nine line end and data beginnings as constants: data in use begins behind the one line end. Generic dictionary readers must turn only whole values into numbers. Data cut at the endstream keyword passes a step that takes the line end off before it reaches a cipher. Lengths found without a regular expression over /Length or such a reader are not recognised as lengths.")
CHECKS["C25"]=("query over the typed program with language inclusion of constant search patterns","Every constant regular expression or text (also those put together with a name parameter) that library code searches for and that contains a PDF name is parsed into the sequences of text and white space it stands for. Each place for white space is replaced by the other spellings the format allows; each resulting text must be in the language of the expression, or of another search of the same function or of helpers only it calls. Capture groups of value patterns must not end inside an array, string or dictionary. White space skipped by hand-written loops, patterns without a PDF name and searches whose pattern is not constant are outside.")
LATER="not decided yet by a check; under construction"
for _p in ["C01","C02","C03","C04","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C22"]:
    if _p not in CHECKS: NA[_p]=LATER
NA["C30"]="Equality of written and re-read values quantifies over run-time contents of both sides; no static argument in reach bounds it. Structural parts are claimed separately (C10, C15, C16, C17)."
NA["C31"]="Numerical result of ciphers and key derivations; the structural parts (verification before success, no fallback, randomness) are claimed as C07, C12, C14."
NA["C32"]="Correctness and minimality of a diff is a relation between run-time values."
NA["C33"]="Depends on interpreting the numbers of a content stream at run time; rendering has no static oracle here."
NA["C34"]="Equality of object graphs before and after an edit is a relation between run-time values; atomicity and page-range parts are claimed as C21 and C22."
NA["C35"]="Which revision of an object is newest depends on run-time revision histories; the walk's termination is claimed in C02."
NA["C36"]="Numerical equality of glyph, width and subset tables."
NA["C37"]="Round-trip equality of translated values; determinism and literal insertion are claimed as C04 and C11."
