TODO = "The check is not built yet."

prop("C01", "Splitting a text into words loses, adds and moves nothing",
 "Splitting any byte sequence into words returns pieces whose concatenation is the input, except that ASCII letters may be lower-cased when lower-casing is on (and only then). This holds for every input, valid UTF-8 or not, and every combination of the settings for letters and numbers; the call always returns and never panics.",
 ["inputs", "configurations"], "every byte sequence, every combination of the settings AlphaNum, Alpha, Num, ToLower",
 "the tests split a handful of valid sentences under two settings",
 ["segmenter.go"], [("rune by rune scan that closes an alphanumeric run", "SplitTextToWords"), ("lower-casing byte by byte", "toLower")],
 ["SplitTextToWords", "SplitWords"], technique="path-by-path evaluation with inferred relational loop invariants (Houdini over piece equations and linear relations)",
 note="all inputs; bounds and termination included")

prop("C02", "Segments tile the text",
 "The segments that Segment and ModeSegment return cover the words of the text one after the other without gap or overlap: the first starts at byte 0, every other one starts where the one before it ends, the end of a segment is its start plus the byte length of its token's text, and together they cover all words of the text. No input makes the call panic or hang.",
 ["inputs", "configurations"], "every text and every dictionary that the settings in force split like the text",
 "the tests compare a few sentences with their expected segments",
 ["segmenter.go", "dictionary.go", "dict_util.go"], [("forward pass over the words with one best token per position", "segmentWords"), ("two walks from the end", "segmentWords"), ("byte positions", "segmentWords"), ("a pseudo token where the dictionary has no single word", "segmentWords")],
 ["Segment", "ModeSegment"], technique="path-by-path symbolic evaluation with inferred linear invariants, a step-count ghost for the walk back, and a coverage summary of the forward loops",
 note="A text and a dictionary with fewer than 2^31 bytes. What the trie answers is not assumed to be right, only that its value is an index AddToken stored (C13); that the dictionary splits words like the text is the precondition (C01).")

prop("C03", "Cutting with the word graph reproduces the text",
 "The words that Cut with an explicit HMM flag, CutDAG and CutDAGNoHMM return, joined together, are the text (lower-cased when lower-casing is on): nothing is lost, repeated or moved, for every text of valid UTF-8 and every dictionary, and the call returns without panicking.",
 ["inputs", "configurations"], "every text (invalid UTF-8 counts as the replacement character), every dictionary",
 "the tests cut fixed sentences with one dictionary",
 ["dag.go", "gse.go"], [("word graph with at least one edge per position", "getDag"), ("routes that end at an edge", "calc"), ("buffer of single characters that is emptied before each longer word", "cutDAG, cutDAGNoHMM")],
 ["Cut", "CutDAG", "CutDAGNoHMM"], technique="path-by-path symbolic evaluation with inferred loop invariants over the pieces, summaries of the word graph (edges forward and inside, one route per position), interprocedural piece summaries",
 note="valid UTF-8; a dictionary loaded through the API; what the trie answers is not assumed to be right")

prop("C04", "HMM cutting reproduces the text and always returns",
 "The pieces that HMM cutting returns, joined together, are the text, for every text of valid UTF-8 and for every regular expressions the caller passes, including ones that match the empty string; the call always returns and does not panic.",
 ["inputs", "configurations"], "every text (invalid UTF-8 inside a matched part counts as the replacement character), every pair of regular expressions",
 "the tests cut fixed sentences with the default expressions",
 ["hmm/hmm_seg.go", "hmm/viterbi.go"], [("alternating match of two expressions at the head of the rest", "Cut"), ("BMES automaton", "internalCut"), ("predecessor table", "prevStatus")],
 ["HMMCut", "hmm.Cut"], technique="path-by-path symbolic evaluation with inferred loop invariants over the pieces, tag automaton, constant table evaluation",
 note="valid UTF-8; regexp match positions taken from its documentation; whether the model picks the best path is not part of this")

prop("C05", "Part-of-speech cutting reproduces the text",
 "The texts of the words that the part-of-speech tagger returns, joined together, are the text it was given, for every text of valid UTF-8, with the HMM on or off, and the call returns without panicking. The same holds for the regular expression splitter it is built on: with a capturing expression and a limit other than zero the pieces joined together are the input.",
 ["inputs", "configurations"], "every text of valid UTF-8, every dictionary, HMM on or off",
 "no test cuts with the tagger",
 ["hmm/pos/pos_seg.go", "hmm/util/util.go"], [("split into matching and other blocks", "RegexpSplit"), ("buffer of single characters", "cutDAG, cutDAGNoHMM")],
 ["pos.Segmenter.Cut", "util.RegexpSplit"], technique="path-by-path symbolic evaluation with inferred loop invariants over the pieces, interprocedural piece summaries, tag automaton, inclusion of the character classes of the constant expressions",
 note="valid UTF-8; a dictionary loaded through the API; that the tagger's viterbi never runs out of states rests on C24 and finite probabilities")

prop("C06", "Search and full mode only add genuine words",
 "Search mode cutting returns, besides the words of the accurate cut, each exactly once and in order, only contiguous parts of such a word that the dictionary holds with a positive frequency. Full mode returns only contiguous parts of the text that are edges of the word graph.",
 ["inputs", "configurations"], "every text, every dictionary",
 "the tests compare fixed sentences",
 ["dag.go"], [("two and three character parts looked up in the dictionary", "cutForSearch"), ("edges of the word graph", "cutAll")],
 ["CutSearch", "CutAll"], technique="path evaluation with inferred loop invariants; dictionary knowledge from path conditions",
 note="Every text CutSearch and CutAll put in a result list is traced to a word of the accurate cut, a dictionary-confirmed part, or an edge of the graph; the joined words equal the accurate cut by an inferred invariant.")

prop("C07", "A better path is never given up for a worse one",
 "While segmenting, the path recorded for a position is replaced exactly when nothing is recorded yet or the new path is strictly better (shorter distance; for the word graph, higher probability, or the same probability and a longer word). A recorded path is never replaced by a worse one, whatever the values, zero and negative ones included.",
 ["inputs"], "every pair of path values, including zero, negative and equal ones",
 "the tests never reach a zero or negative distance, nor ties",
 ["segmenter.go", "dag.go", "hmm/pos/pos_seg.go"], [("comparison before the update", "updateJumper, calc")],
 ["Segment", "Cut"], technique="path-by-path evaluation of the SSA form (symbolic terms, no solver), decision table over the orderings of old and new path",
 note="Decides, for every place where a recorded path is written, that on every path through the code the write happens exactly for the orderings of recorded and new value the property names. Floating point comparison is taken as exact; that the value compared is the real cost of the path is not decided.")

prop("C08", "A word is never among its own parts",
 "In search mode, the parts recorded for a dictionary word never include a part that spans the whole word, none of the recorded parts is missing (nil), and a text that is a single word is still returned. So expanding a word into its parts always ends.",
 ["inputs", "configurations"], "every dictionary",
 "the tests expand a few words of the default dictionary",
 ["segmenter.go", "dict_util.go"], [("the whole-text token is skipped in search mode", "segmentWords"), ("count and fill of the parts with the same condition", "CalcToken")],
 ["Token.Segments", "ToSlice", "ToString", "ToPos"], technique="path-by-path evaluation of the SSA form with linear arithmetic; product comparison of the counting and the filling loop",
 note="Decides that in search mode no token as long as the text is recorded at its last position, that CalcToken divides an entry in search mode and records only parts that exist, that nobody else sets the parts, and that a text of one word is never divided in search mode.")

prop("C09", "Segmenting does not change the segmenter",
 "Cutting, segmenting, tagging, looking up, trimming and extracting keywords never change the segmenter, its dictionary, its stop words or package state, so any number of goroutines can do so at once on one loaded segmenter.",
 ["schedules", "histories"], "every history of query calls on one segmenter, from any number of goroutines",
 "the tests call each function from one goroutine and do not compare the segmenter before and after",
 ["segmenter.go", "dag.go", "dictionary.go", "gse.go", "trim.go", "hmm/"], [("read-only use of the dictionary", "Find, LookupTokens, Value")],
 ["every exported query function and method"],
 technique="interprocedural effect analysis over SSA (origins of written memory)",
 note="Decides, for every exported query function of the library packages, that no instruction reachable from it writes memory that comes from the receiver, an argument or a package variable. Calls into the standard library are modelled by a table; cedar is analysed from its source.")

prop("C10", "Arguments are read only and results belong to the caller",
 "No function writes into, appends to or keeps a slice or map the caller passes in, except where taking it over is the function's purpose, and results do not share memory with internal state that later calls write. Later calls with other arguments can not change earlier results.",
 ["histories", "inputs"], "every history of calls, every argument",
 "tests do not look at the arguments after the call nor at old results after a new call",
 ["gse.go", "segmenter.go", "dag.go", "trim.go", "stop.go", "dict_util.go", "hmm/"], [("results are freshly allocated", "all exported functions")],
 ["every exported function and method"],
 technique="interprocedural effect and escape analysis over SSA",
 note="Decides writes to argument memory, retention of argument memory in receivers and package variables, and results aliasing mutable internal memory, for every exported function of the library packages; documented hand-over points are listed in the checker, one reason each.")

prop("C11", "Segmenters are independent of each other",
 "What one segmenter loads, adds, removes or empties never changes what another segmenter answers: no operation on a segmenter writes package-level state, with the documented exception of package variables the caller sets himself.",
 ["histories", "schedules"], "every interleaving of operations on two segmenters",
 "the tests use one segmenter at a time",
 ["gse.go", "dict_util.go", "stop.go", "hmm/"], [("all state lives in the segmenter", "Segmenter")],
 ["every exported method that changes a segmenter"],
 technique="interprocedural effect analysis over SSA (writes to package variables)",
 note="Decides that no exported function of the library packages writes memory reachable from a package variable. The HMM model is global in this code base: that is a listed known finding.")

prop("C12", "The same input gives the same result",
 "Results do not depend on the iteration order of maps: cutting, tagging and keyword extraction of the same text with the same dictionary return the same words, tags, weights and order every time.",
 ["schedules", "inputs"], "every map iteration order, every input",
 "a test run sees one iteration order, and ties are rare",
 ["hmm/idf/", "hmm/pos/viterbi.go", "hmm/viterbi.go", "dag.go"], [("sorting with total comparators before order is observed", "Less"), ("keys sorted or inserted in text order", "rank, TextRankWithPOS")],
 ["Cut", "TextRank", "ExtractTags"], technique="path-sensitive order-dependence analysis of every loop over a map (and of the unordered lists it fills) on SSA; comparators decided as lexicographic orders over all sign patterns",
 note="Values that differ in the last bit from summing floats in another order count as differences. The unordered part of a result the API documents as a map is not judged; the order of the keys inside cedar is fixed by the keys.")

prop("C13", "The first entry of a word wins and is the one found",
 "A word added to a dictionary twice keeps its first frequency and tag and is counted once; every lookup of a word (of a dictionary, a segmenter, a tag dictionary or an IDF table) returns the frequency and the tag of that word's own entry, reports a word that is not in the dictionary as having none, and says whether entries begin with it. The totals (number of entries, sum of frequencies, longest entry) describe exactly the accepted entries, and the accessors of dictionaries, entries and segments tell what is stored.",
 ["histories", "inputs"], "every sequence of additions and lookups",
 "the tests add and look up a few words",
 ["dictionary.go", "hmm/pos/dict.go"], [("the trie value is the index of the entry", "AddToken"), ("lookups use the value only without error", "Find, LookupTokens, Value, Pos")],
 ["AddToken", "Find", "Value", "Pos"], technique="path-by-path evaluation of the SSA form (symbolic terms, linear arithmetic), typestate of trie results, write-set rules",
 note="Decides that AddToken inserts exactly when the key is not empty and unknown, with the index the entry gets, and keeps the totals; that these fields are written nowhere else; that every index into the entries is a value the trie returned without error for the word looked up. cedar itself is trusted; keys with NUL bytes, which cedar can not hold, are not claimed.")

prop("C14", "After loading, the path costs are up to date",
 "When a dictionary load returns without error, and after a forced addition, the path costs and the parts of every entry have been computed from the final contents: no entry is added after the last computation, and all costs are computed before the first entry is divided.",
 ["histories", "configurations"], "every load operation, every sequence of loads",
 "the tests check a few cuts after one load",
 ["dict_util.go", "dict_1.16.go"], [("recalculation after the last addition", "CalcToken")],
 ["LoadDict", "LoadDictStr", "LoadDictMap", "LoadDictEmbed", "AddTokenForce", "Segment"], technique="path-by-path evaluation of the SSA form, loop coverage rules, interprocedural effect fixed point",
 note="Decides that CalcToken sets the distance of every entry (from the total and its own frequency) before the first division and the parts of every entry, and that every loader and AddTokenForce end with CalcToken after the last addition on every path without a known error. That a division is the best one is not decided (C40).")

prop("C15", "A failing load says so and always ends",
 "When a dictionary or stop word file can not be opened or read to its end, the load returns an error; a load from a broken reader ends. No load reports success after dropping such an error.",
 ["fault_sequences"], "every failing open or read at any point",
 "the tests only load readable files",
 ["dict_util.go", "dict_1.16.go", "stop.go", "hmm/"], [("errors are returned", "LoadDict, Read, Reader, LoadStop")],
 ["LoadDict", "Read", "Reader", "LoadStop", "LoadIdf"], technique="typestate of error results by path-by-path evaluation of the SSA form",
 note="Decides for every function of the library packages that opens or reads files or a reader that an error of the open or the read reaches the error result on every path, that a loop over a reader ends on every error, and that callers pass the error on. What the operating system reports is taken as given.")

prop("C16", "Dictionary entries are read independently",
 "What a dictionary line yields depends on that line alone: no word, frequency or tag is carried over from an earlier line, and no file name resolves to the path of an earlier one in the list.",
 ["inputs", "configurations"], "every dictionary text and every list of dictionary names",
 "the tests load well-formed dictionaries",
 ["dict_util.go", "dict_1.16.go"], [("fields declared per line", "Reader"), ("path declared per name", "DictPaths")],
 ["Reader", "LoadDictStr", "LoadDictMap", "DictPaths"], technique="loop-carried dependence analysis of the SSA form (path-by-path evaluation)",
 note="Decides for every loop over dictionary lines, map entries or file names in the loaders that what is added in one round is computed from values of that round and loop invariants only. A value that is carried over on purpose (positions, counters) is allowed only when it can not reach the entry.")

prop("C17", "Only sensible frequencies enter from a dictionary",
 "Every entry that a dictionary load accepts has a finite frequency that is not below the configured minimum (single character words have the fixed frequency 2); lines with a missing, malformed, infinite or too small frequency are skipped.",
 ["inputs", "configurations"], "every frequency text, every minimum",
 "the tests load well-formed frequencies",
 ["dict_util.go", "dict_1.16.go"], [("Size filters", "Size"), ("callers skip zero", "Reader, LoadDictStr, LoadDictMap")],
 ["LoadDict", "LoadDictStr", "LoadDictMap"], technique="path-by-path evaluation of the SSA form (guards of every accepted entry)",
 note="Decides that on every path on which a loader adds an entry, the frequency added was parsed without error, is finite and not below the minimum, or is the fixed one for single characters.")

prop("C18", "A segmenter works at every stage of its life",
 "Every query and every change on a segmenter that was never loaded, or was emptied, returns instead of panicking, and loading again after emptying works like the first load: emptying keeps the settings of the segmenter, and whatever function gives a segmenter its dictionary gives it one that can be used and sets the defaults (least frequency, frequency of words without one, HMM model unless it is not wanted). Loading another dictionary into a segmenter keeps what was loaded before.",
 ["histories"], "every sequence of load, add, remove, empty and query calls, starting with the zero value",
 "the tests query loaded segmenters only",
 ["dict_util.go", "dictionary.go", "segmenter.go", "dag.go", "stop.go"], [("nil dictionary checks", "Dictionary methods, LoadDict, AddToken"), ("stop word map created on demand", "AddStop, LoadStop")],
 ["every method of Segmenter"], technique="path-by-path nil-state analysis with an interprocedural requirement fixed point (go/ssa)",
 note="requirements of callees propagated to callers; API functions may require nothing")

prop("C19", "Files the library opens are closed",
 "Every file that a load opens is closed on every path, including errors, and is not used after it is closed.",
 ["fault_sequences", "inputs"], "every path through the functions that open files",
 "a leaked file handle does not fail a test",
 ["dict_util.go", "stop.go"], [("deferred close after the error check", "Read, LoadStop")],
 ["LoadDict", "Read", "LoadStop"],
 technique="typestate analysis on the control flow graph",
 note="Decides for every call that opens an operating system file, in every package, that on each path to an exit the handle is closed or handed over, and that it is not closed before a later use.")

prop("C20", "The server never changes the dictionary under a running request",
 "In the segmentation server, a request that adds a word excludes every other request that reads or changes the segmenter while it runs, and every lock is released when the request ends, whatever the request contains.",
 ["schedules"], "every interleaving of concurrent requests",
 "the server has no test",
 ["tools/server/server.go"], [("read-write lock around the segmenter", "JsonRpcServer, addToken")],
 ["/json", "/add"],
 technique="lockset analysis over the handlers' call graph",
 note="Decides that every access to the shared segmenter reachable from a registered HTTP handler happens with the lock held in a mode that fits the effect (from the effect analysis of the callee), that each acquired lock is released on all paths including panics and never taken twice, and that goroutines and the code around the server take it as well. A lock handed over to a goroutine that releases it counts as not released.")

prop("C21", "The renderings of the same segments agree",
 "Rendering segments as text, as a list of words and as words with tags yields the same words in the same order, in normal and in search mode, and the tags shown are those of the segments. The convenience methods return exactly the rendering of the segmentation with the same mode.",
 ["inputs", "configurations"], "every text, both modes",
 "the tests compare renderings of two sentences",
 ["seg_utils.go", "gse.go"], [("three sibling walks over the parts of a token", "tokenToString, tokenToSlice, tokenToPos")],
 ["ToString", "ToSlice", "ToPos", "String", "Slice", "Pos"], technique="functions turned into automata over symbolic paths, run side by side (product construction), helpers matched coinductively",
 note="The format of the text rendering (a slash between word and tag, a space after it) is compared between the siblings, not with a specification.")

prop("C22", "Filters keep order and drop exactly what they should",
 "The trimming and stop word filters return a subsequence of their input in the same order, with nothing added (Trim and TrimSymbol return each word without its symbols, spaces and punctuation). An entry is dropped only for the reason the filter exists for: Trim and TrimPos drop what has nothing left without symbols, spaces and punctuation, and, unless NotStop is set, what is a stop word once those are removed; TrimSymbol drops what has nothing left; TrimPunct keeps what has a character that is neither space nor punctuation; TrimPosPunct and the tagger's TrimPunct decide by the first character; TrimWithPos drops exactly the listed tags; Stop drops the stop words and the empty. CutTrim, PosTrim, CutStop and their relatives filter the words of the cut they name, with the same arguments.",
 ["inputs", "configurations"], "every list, every stop word map and setting",
 "the tests filter a few sentences",
 ["trim.go", "hmm/pos/pos_seg.go"], [("one pass with a keep condition", "Trim, TrimPos, TrimSymbol, TrimPunct, TrimPosPunct, TrimWithPos, Stop")],
 ["Trim", "TrimPos", "TrimSymbol", "TrimPunct", "TrimPosPunct", "TrimWithPos", "Stop"], technique="path-by-path symbolic evaluation with a three-valued keep condition per filter; expansion of the composed methods",
 note="whole library; the regular expression of FilterHtml and FilterEmoji are not decided")

prop("C23", "Keyword lists are sorted, complete and within the limit",
 "Keyword extraction returns its keywords by descending weight, ties by text, each keyword once, and at most as many as asked for, fewer only when there are no more (a limit that is not positive means none in ExtractTags and all in TextRank); no limit, negative or larger than the number of keywords, makes it panic.",
 ["inputs"], "every text and every limit",
 "the tests extract from one sentence with one limit",
 ["hmm/idf/", "hmm/segment/segment.go"], [("total order on weight and text", "Segments.Less"), ("sort before cutting to the limit", "ExtractTags, rank, TextRankWithPOS")],
 ["ExtractTags", "TextRank", "TextRankWithPOS"], technique="path evaluation on SSA of every keyword function with its list-building loop; comparators decided as lexicographic orders; limits by linear arithmetic over the path conditions",
 note="the sort itself is the standard library's")

prop("C24", "The model tables are well formed",
 "Every state the models can reach has a position and a tag the tagger knows, every transition leads to a known state, no probability is positive or not a number, and every state sequence the transition table allows is one the word assembler understands (begin, middles, end, or a single).",
 ["configurations"], "every entry of the model tables",
 "the tests touch a few dozen of more than a hundred thousand entries",
 ["hmm/prob_emit.go", "hmm/prob_trans.go", "hmm/viterbi.go", "hmm/pos/"], [("tables", "probEmit, probTrans, probStart, charStateTab, prevStatus")],
 ["HMMCut", "pos.Segmenter.Cut"], technique="constant evaluation of the model tables in the type-checked syntax tree, closure of the state graph, agreement of the tables with the assembler",
 note="the tables are read from the source; map insertions in init functions are evaluated, anything else that writes to a table is a violation")

prop("C25", "Every build variant compiles and offers the same API",
 "The library compiles with and without the embedded dictionaries and with every supported set of build tags, and each variant exports the same functions, types and variables with the same signatures.",
 ["configurations"], "every combination of the build tags the sources name, and the supported language versions",
 "the tests are built with one tag set",
 ["dict_embed.go", "dict_no_embed.go", "dict_1.16.go"], [("build constraints", "dict_embed.go, dict_no_embed.go")],
 ["go build", "go build -tags ne"],
 technique="type-checking of every build-tag variant and comparison of the exported API",
 note="Type-checks all packages for each combination of the build tags that the sources mention and compares the exported API of the variants object by object.")

prop("C26", "A tag comes from the dictionary entry of the same word",
 "A tag that is attached to a word because the dictionary knows it is the tag of that very word's entry; words the dictionary does not know get a fixed tag or one from the model.",
 ["inputs", "configurations"], "every text, every dictionary",
 "no test checks tags against the dictionary",
 ["hmm/pos/pos_seg.go", "hmm/pos/dict.go", "dag.go", "seg_utils.go"], [("look up the word that is emitted", "cutDAG, cutDAGNoHMM, bufn"), ("text and tag from the same token", "ToPos, tokenToPos")],
 ["pos.Segmenter.Cut", "Pos", "Analyze"], technique="path-by-path evaluation of the SSA form: provenance of the tag against the text it is attached to",
 note="Decides for every place that makes a tagged word that the tag is constant, from the model, or from the entry the trie returned for the same text. That the model's tags are the right ones is not decided.")

prop("C27", "Optional arguments can be left out",
 "No exported function or method with optional (variadic) arguments panics because fewer of them were passed, whatever the number: every access to an optional argument is preceded by a check that it is there.",
 ["inputs"], "every number of optional arguments, zero included",
 "tests pass the usual number",
 ["gse.go", "dag.go", "dict_util.go", "dict_1.16.go", "stop.go", "trim.go", "seg_utils.go", "hmm/"], [("length checks", "all variadic functions")],
 ["every variadic function"], technique="path-by-path evaluation and bounds obligations on variadic parameters",
 note="Decides for every variadic parameter of the exported functions that each index into it is proved in bounds by the conditions on the path, also inside the functions the arguments are handed to, element types left aside.")

prop("C28", "The text of a token is its words joined",
 "The text of a token, and every joining of words the library does for keys, lengths and output, is the exact concatenation of the words, for any number of words of any length; comparing a token with a string is true exactly when the string is that concatenation.",
 ["inputs"], "every list of words, including empty ones",
 "the tests join up to a few words",
 ["seg_utils.go", "token.go"], [("special cases and one copy loop", "Join"), ("byte by byte comparison", "Equals")],
 ["Token.Text", "Join", "Token.Equals"], technique="path-by-path evaluation with inferred loop invariants over the contents of accumulators, buffers filled with copy, and lengths of lists of words",
 note="every list of words of every length; the overflow of lengths is not considered")

prop("C29", "The fields of an entry are those of its line",
 "Loading a dictionary makes of each line (or record) the entry the line describes: the word is the first field, the frequency the second and the tag the third field of that same line, with the white space around them removed (with a separator configured, fields end at the separator followed by a space, however many there are); an entry has no tag only when the line has fewer than three fields, and the general frequency only when it has fewer than two. No line is left out without a reason: the last line counts without a newline too, and only lines without a word, without a frequency (unless LoadNoFreq is set) or with a frequency that is no sensible number are skipped.",
 ["inputs", "configurations"], "every line of every dictionary, from a file, a string or a list of maps, every separator",
 "the tests load a few well-formed lines",
 ["dict_util.go", "dict_1.16.go"], [("reading the fields of a line", "ReadN, Reader, LoadDictStr, LoadDictMap"), ("parsing the frequency", "Size"), ("end of file with an unfinished line", "Reader")],
 ["LoadDict", "LoadDictStr", "LoadDictMap", "Reader"], technique="path-by-path evaluation of every loading loop: provenance of each part of the token that is added, reasons known on each path that adds none",
 note="Files are read with fmt.Fscanln when no separator is configured: rows of more than three columns leave their rest in the reader, which is not claimed. What strings.Split, TrimSpace and ParseFloat return is trusted. When a helper with a loop takes the line apart, its fields are left open.")

prop("C30", "Occurrences and analysis describe the segments",
 "FindAllOccs always returns, and lists for every search that is not empty the places where it really occurs in the text, from the last to the first, each ending before the one listed before it and none left out in between. Analyze never panics and gives one entry per segment, in order, with its index, its text and the frequency and tag the dictionary has for it. With a text, the entries of equal segments take the listed occurrences one after the other as long as there are any, and an entry ends as many bytes after its start as the segment has; without a text each entry starts where the one before it ends, the first at 0, counted in bytes, or in characters when that is asked for.",
 ["inputs"], "every text, every list of segments or searches, also empty, repeated or not in the text",
 "the tests analyze one sentence",
 ["dag.go"], [("search from the end in what is before the last occurrence", "FindAllOccs"), ("count of the segments seen", "Analyze"), ("positions added up", "Analyze")],
 ["FindAllOccs", "Analyze"], technique="path-by-path evaluation with inferred loop invariants (linear relations of counters and list lengths), inductive conditions on the loop variables that hold occurrences and ends",
 note="bytes.LastIndex and strings.ToLower are trusted. Where a segment has no occurrence left its start is not specified. What the dictionary has for a segment is C13.")

prop("C31", "Adding and removing a word does exactly what was asked",
 "Adding a word with a frequency and optional tags (to a segmenter, a tag dictionary or an IDF table, also forced or as a replacement) hands the dictionary one entry with all the words of the text, the frequency as given, and the first tag, or none if there is none; a replacement removes the word before; removing a word deletes the key of all its words and nothing else. What the dictionary answers is returned: nothing is left undone without an error.",
 ["inputs", "configurations"], "every text, frequency and list of tags, every state of the dictionary",
 "the tests add and remove a few words",
 ["dict_util.go", "dictionary.go", "hmm/pos/dict.go", "hmm/idf/idf.go"], [("entry made of what was asked", "ToToken"), ("removed before added again", "ReAddToken"), ("key of all the words", "Dictionary.RemoveToken")],
 ["AddToken", "AddTokenForce", "ReAddToken", "RemoveToken", "ToToken"], technique="path-by-path evaluation of the SSA form: provenance of every part of the entry that is added or removed, provenance of the error returned",
 note="How a text is split into words is C01, how words are joined into a key C28, what the dictionary does with an entry C13. The removal of the trie is trusted.")

prop("C32", "The stop words are those that were added and not removed",
 "Adding a stop word, a list or file of them, or a text with one per line stores exactly these words (lines without the white space around them, empty ones excepted), up to the last one or with an error, and keeps those that are there; removing a word removes that word and nothing else; emptying leaves none; a set made from the defaults has all of them; and a word is reported as a stop word exactly when it is in the set of the segmenter or stop word list that is asked.",
 ["histories", "inputs"], "every sequence of additions, removals and questions",
 "the tests ask for a few words",
 ["stop.go", "dict_1.16.go", "hmm/idf/stop_words.go"], [("every word of a list or file is stored", "LoadStopArr, LoadStop, LoadStopStr, StopWord.LoadDict"), ("membership", "IsStop, IsStopWord")],
 ["AddStop", "AddStopArr", "RemoveStop", "LoadStop", "LoadStopArr", "IsStop", "EmptyStop", "StopWord methods"], technique="path-by-path evaluation of every function that changes or asks a set of words, loop by loop: what a round stores, how a loop ends, what the answer is",
 note="bufio.Scanner and strings.Split are trusted. That a set is not shared with another one or with the defaults is C11.")

prop("C33", "Text helpers keep, split and join exactly as they say",
 "FilterEmoji keeps exactly the characters of at most three bytes, FilterLang exactly the letters and the characters of the script, RangeText puts one space after every character, all in the order of the text; CutStr and PosStr write every element (with its tag unless tags are skipped) in order with the separator between two elements and nowhere else; the parts of SplitNum are the runs of digits and of other characters, all of them and nothing lost; FilterHtml removes only what begins with < and ends at the first >; and IsJp tells whether the text has a Hiragana or Katakana character.",
 ["inputs"], "every text and every list of words",
 "the tests filter and join a few texts",
 ["trim.go", "gse.go", "dict_util.go"], [("what is kept of a text", "FilterEmoji, FilterLang, FilterHtml"), ("separator between the elements", "CutStr, PosStr"), ("runs of digits", "SplitNum"), ("kana", "IsJp")],
 ["FilterEmoji", "FilterLang", "FilterHtml", "RangeText", "SplitNum", "CutStr", "PosStr", "IsJp"], technique="path-by-path evaluation of each pass: what a round adds for its element and that every element is looked at; decision of the constant regular expressions on their syntax trees",
 note="Packages unicode, utf8, strings and regexp are trusted to do as documented.")

prop("C34", "The dictionaries named are the ones loaded, in their order",
 "A list of dictionary names stands, name by name and in order, for exactly the files it documents (zh for the traditional and the simplified Chinese dictionary, zh_s, zh_t, ja or jp, nothing for en, ko, ti and empty names, any other name for the file itself); LoadDict reads every file of the list once, in order, up to the end or the first error, and the two default files if nothing is named; a file that is read is the one named, of the directory that was set; LoadStop opens each file named; the loaders of the other packages hand the names on; LoadDictEmbed loads the dictionary named; New switches AlphaNum on exactly when it is told to.",
 ["inputs", "configurations"], "every list of names, every directory that was set",
 "the tests load a few lists",
 ["dict_util.go", "gse.go", "stop.go", "dict_1.16.go", "hmm/idf/idf.go", "hmm/idf/tag_extracker.go", "hmm/idf/textrank.go", "hmm/idf/stop_words.go", "hmm/pos/pos_seg.go"], [("what a name stands for", "DictPaths"), ("order of the files", "Segmenter.LoadDict"), ("the file named", "Segmenter.Read, LoadStop"), ("hand-over", "idf, pos and textrank loaders")],
 ["DictPaths", "LoadDict", "Read", "LoadStop", "GetIdfPath", "LoadDictEmbed (one name)", "New", "NewEmbed"], technique="path-by-path evaluation of the loaders; for every name, the paths it can take decide what is added for it",
 note="Lists with several parts given to LoadDictEmbed are not judged. The contents of the files are C13, C16 and C29.")

prop("C35", "The mode asked for is the mode used",
 "Cut without a flag cuts along the shortest path, with false along the word graph without the hidden Markov model, with true with it; CutSearch, Slice, String, Pos, ModeSegment, CutStop, CutTrim, CutTrimHtml(s), PosTrim, PosTrimArr, PosTrimStr and CutUrls hand the mode on as they were given it (CutSearch without a flag: search mode); CutDAG uses the model and CutDAGNoHMM and CutAll do not; the tagger uses the model exactly if the flag is true. A run of single characters is cut with the model exactly if it is no word of the dictionary (absent or of frequency 0). Expressions given to CutDAG and HMMCut are handed on; the second one finds what is cut and the first one what is kept, and a default serves only where none was given. LoadModel and HMMCutMod store four tables as B, E, M and S, before anything is cut with them.",
 ["inputs", "configurations"], "every text, every flag, every list of expressions and tables",
 "the tests cut a few sentences in some of the modes and give no expressions for which the places they are used at differ",
 ["gse.go", "dag.go", "trim.go", "segmenter.go", "hmm/hmm_seg.go", "hmm/pos/pos_seg.go"], [("dispatch", "Segmenter.Cut, pos.Segmenter.Cut"), ("unknown runs", "Segmenter.hmm, pos cutDAG and bufn"), ("expressions", "hmm.Cut"), ("model", "hmm.LoadModel")],
 ["Cut", "CutSearch", "Slice", "String", "Pos", "CutDAG", "HMMCut", "HMMCutMod", "LoadModel", "CutTrim", "PosTrim", "pos.Segmenter.Cut"], technique="path-by-path evaluation: what each call is given is compared with what the path was asked for",
 note="What the modes answer is C02 to C08 and C10. That the loaded model serves the whole process is the known finding of C11.")

prop("C36", "Keywords are counted and weighted as documented",
 "ExtractTags counts every word that the cut of the text with the hidden Markov model gives, without the white space around it, once per occurrence, if it has at least two characters and is no stop word, and nothing else; the weight of a keyword is its count divided by the sum of all counts, times its inverse document frequency, or times the median of the table if the table has no (positive) frequency for exactly this word. TextRank and TextRankWithPOS count each pair of tagged words of which both have an allowed tag (TextRank: the default tags) and the second follows within the next four words, once per occurrence, and link the two words of each pair in both directions with that count as weight.",
 ["inputs", "configurations"], "every text, every IDF table, every set of stop words and tags",
 "the tests compare the keywords of one or two texts, in which most rules make no difference",
 ["hmm/idf/tag_extracker.go", "hmm/idf/textrank.go"], [("counts, shares and weights", "ExtractTags"), ("window of pairs", "TextRankWithPOS"), ("both directions", "addEdge")],
 ["ExtractTags", "TextRank", "TextRankWithPOS"], technique="path-by-path evaluation with loop summaries: what a turn of each counting loop adds, under which conditions; weights are compared as products of quotients",
 note="The ranks computed from the links are C43, order and limit C23, the words themselves C04 and C05. The median is that of the words added by AddToken; of a loaded table it is 0.")

# What this family can not decide here.
prop("C40", "The chosen segmentation is the one of least cost",
 "Among all segmentations of a text into dictionary words and single words, the one returned has the least total distance.",
 ["inputs", "configurations"], "every text, every dictionary",
 "the tests compare fixed sentences",
 ["segmenter.go", "dag.go"], [("dynamic programming", "segmentWords, calc")], ["Segment", "Cut"],
 na="Optimality compares sums of run-time path costs over all segmentations; no static argument in reach bounds them. The local condition it rests on (a better path is never given up for a worse one) is C07, and that the costs are up to date is C14.")
prop("C41", "The HMM path is the most likely one",
 "The state sequence behind an HMM cut has the highest probability of all sequences the model allows.",
 ["inputs"], "every text",
 "the tests compare fixed sentences",
 ["hmm/viterbi.go", "hmm/pos/viterbi.go"], [("Viterbi recursion", "Viterbi")], ["HMMCut", "pos.Segmenter.Cut"],
 na="A maximum over run-time floating point sums: not decidable from the shape of the code. C04, C05 and C24 decide that the path is well formed.")
prop("C42", "The trie finds exactly the keys inserted",
 "The double array trie behind the dictionary returns for every key the value it was inserted with and no value for any other key.",
 ["histories"], "every sequence of insertions, deletions and lookups",
 "the tests insert a few keys",
 ["dictionary.go"], [("cedar", "github.com/vcaesar/cedar")], ["Find", "AddToken", "RemoveToken"],
 na="The trie is a dependency outside the repository, and its correctness is a shape invariant over run-time array contents. (Keys with NUL bytes are known to be unsupported by it.)")
prop("C43", "Text rank weights converge",
 "The ranks that keyword extraction by text rank computes approach the fixed point of the rank equation.",
 ["inputs"], "every text",
 "the tests rank one sentence",
 ["hmm/idf/textrank.go"], [("ten rounds", "rank")], ["TextRank"],
 na="A numerical property of run-time values.")
prop("C44", "Segmenting takes time proportional to the text",
 "The time to segment a text grows linearly with its length for a fixed dictionary.",
 ["inputs"], "every text",
 "the tests do not measure time",
 ["segmenter.go", "dag.go"], [("bounded look-ahead", "segmentWords")], ["Segment"],
 na="A bound on run time over run-time dictionary contents; static analysis here decides only that the loops end (C01 to C05).")
