#!/usr/bin/env python3
# Writes /verif/properties.jsonl (run by hand when the list changes).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
T="The existing tests cover one fixed double-array build and one settings file; "
p("C01","Morphemes tile the input text exactly",
 "Whenever tokenization succeeds, the morphemes are contiguous in code points of the original text: the first begins at 0, each begins where the previous one ends, and the last ends at the text's length. Every morpheme's surface is exactly the original text between its begin and end, so the surfaces concatenate to the input (undecodable bytes read as U+FFFD). This holds in every split mode and for the lists obtained by splitting single morphemes, whatever normalization, OOV and path-rewriting plugins are configured, as long as no rewriting deletes text.",
 ["inputs","configurations"],"all input strings (any bytes), modes A/B/C, all dictionaries and plugin configurations whose rewrites do not delete text",
 T+"no test tokenizes anything, and tiling depends on the composition of variable-length rewrites, byte/code-point index maps, joins and splits.",
 ["tokenizer.go","inputtext.go","morpheme.go","plugin.go","lattice.go"],
 [("offset maps built with the rewritten text","inputtext.go: Replace, Build"),("begin/end/surface of a morpheme","morpheme.go: GetBegin, GetEnd, GetSurface"),("node ranges","plugin.go: GetOOV, ConcatenateNodes, ConcatenateOov; tokenizer.go: splitPath")],
 ["MorphemeList returned by Tokenize and Morpheme.Split"])
p("C02","The chosen segmentation is a minimum-cost path over all candidate words",
 "Before path rewriting, the segmentation is a path from beginning to end of the normalized text whose total cost (word costs plus connection costs, including both sentence boundaries) is minimal over all sequences of candidate words that never use a forbidden connection. The candidates are exactly the dictionary words, of the system and all user dictionaries, that match at each reachable word-start position, plus what the OOV providers offer there. Tokenization fails with an error, instead of returning a segmentation, exactly when no such path exists or a reachable position has no candidate at all.",
 ["inputs","configurations"],"all texts, lexicons, connection matrices and OOV settings, including forbidden connections, ties and long high-cost texts",
 T+"optimality quantifies over exponentially many segmentations of every text and cannot be sampled by expected outputs.",
 ["lattice.go","tokenizer.go","dictionary/lexiconset.go","dictionary/dalexicon.go","dictionary/grammar.go"],
 [("Viterbi connection of nodes","lattice.go: connectNode, GetBestPath"),("candidate generation","tokenizer.go: buildLattice"),("multi-dictionary lookup","dictionary/lexiconset.go: LexiconSetIterator")],
 ["path and lattice as handed to path-rewrite plugins; error result of Tokenize"])
p("C03","Results depend only on text and mode, not on tokenizer history",
 "Tokenizing a text with a given dictionary, configuration and mode always gives the same morphemes, whatever that tokenizer or any other tokenizer of the dictionary has processed before, including texts that failed and longer or shorter texts. Morpheme lists obtained earlier keep reporting the same values after later calls, and reading or splitting morphemes changes nothing. Enabling the debug dump does not change the results.",
 ["histories","inputs"],"all sequences of calls (texts, modes, failures, splits, debug dump on or off) on tokenizers of one dictionary",
 T+"the quantifier is over call histories; the tokenizer reuses its lattice between calls and no test makes two calls.",
 ["tokenizer.go","lattice.go","morpheme.go","dictionary/dalexicon.go","dictionary/lexiconset.go"],
 [("lattice reuse and clearing","lattice.go: resize, clear; tokenizer.go: Tokenize"),("fresh word information per request","dictionary/dalexicon.go: getWordInfo")],
 ["MorphemeList values compared with those of a fresh tokenizer"],
 [dict(name="lattice",meaning="node lists kept by the tokenizer between calls",where="tokenizer.go: JapaneseTokenizer")])
p("C04","Tokenizers of one dictionary can run concurrently",
 "Any number of tokenizers created from one open dictionary may tokenize, split and read morphemes at the same time from different goroutines without data races, and each returns exactly what it would return running alone. Creating tokenizers while others run is safe too, and so is opening, using and closing other dictionary objects, also of the same files, and building and printing dictionaries meanwhile.",
 ["schedules","inputs"],"all interleavings of tokenizers (one per goroutine) that share a dictionary and its plugins",
 T+"there is no concurrent test, and races need particular interleavings.",
 ["tokenizer.go","dictionary.go","dictionary/lexiconset.go","dictionary/dalexicon.go","dictionary/grammar.go","joinnumericplugin.go","joinkatakanaoovplugin.go","definputtextplugin.go","mecaboovproviderplugin.go"],
 [("per-tokenizer lattice","tokenizer.go: NewJapaneseTokenizer"),("plugins keep no per-call state","joinnumericplugin.go, definputtextplugin.go: Rewrite"),("read-only dictionary access","dictionary/dalexicon.go, dictionary/lexiconset.go")],
 ["Go race detector reports; results compared with a sequential run"])
p("C05","No input text crashes or hangs the tokenizer",
 "For every byte string, including empty, invalid UTF-8, control characters, astral characters and very long runs of one kind of character, and for every split mode, tokenizing with a well-formed dictionary and configuration terminates, with memory staying within moderate bounds, with either morphemes or an error value. It never panics, and reading every attribute of every returned morpheme never panics either.",
 ["inputs","configurations"],"all byte strings up to hundreds of kilobytes, all modes, well-formed dictionaries and plugin configurations",
 T+"robustness quantifies over every hostile input; the tests never feed the tokenizer.",
 ["tokenizer.go","inputtext.go","joinnumericplugin.go","joinkatakanaoovplugin.go","mecaboovproviderplugin.go","simpleoovproviderplugin.go","definputtextplugin.go","prolongedsoundmarkinputtextplugin.go"],
 [("bounds of index maps","inputtext.go: Build"),("rescan logic of the numeric joiner","joinnumericplugin.go: Rewrite"),("OOV node lengths","plugin.go: GetOOV; mecaboovproviderplugin.go")],
 ["panics, CPU time and heap of a worker process"])
p("C06","Split modes A and B refine mode C as the dictionary defines",
 "Mode C returns the segmentation itself. Modes A and B return the mode C result with each word replaced by the units its dictionary entry lists for that mode, in order and placed one after another inside the word's span, and words without such a split (including OOV and joined words) left as they are; splitting a single mode C morpheme on request gives the same units. Any split request with mode C returns the morpheme itself.",
 ["inputs","configurations"],"all texts, dictionaries with A/B split information (system and user, numeric, U-prefixed and inline references) and modes",
 T+"no test tokenizes or splits; equality of the two split routes must hold for each word of each dictionary.",
 ["tokenizer.go","morpheme.go","dictionary/dicbuilder.go","dictionary/lexiconset.go"],
 [("splitting a path","tokenizer.go: splitPath"),("splitting one morpheme","morpheme.go: Split"),("unit references","dictionary/dicbuilder.go: parseSplitInfo; dictionary/lexiconset.go: convertSplit")],
 ["Tokenize in three modes and Morpheme.Split"])
p("C07","A dictionary morpheme reports exactly its entry's attributes",
 "Every morpheme that stands for a dictionary word reports the part of speech, normalized form, reading, dictionary form, word id and dictionary number of one source entry whose headword is the normalized text it covers, and is not marked OOV. The dictionary form is the surface form of the entry it refers to, or the entry's own surface form when it refers to none. An OOV morpheme reports the configured part of speech, its own normalized text as normalized and dictionary form, an empty reading and dictionary number -1.",
 ["inputs","configurations"],"all lexicon sources (system and user, both string encodings) and all texts",
 T+"no test reads a word's attributes; the claim ranges over every entry of every dictionary.",
 ["morpheme.go","lattice.go","dictionary/dalexicon.go","dictionary/lexiconset.go","dictionary/dicbuilder.go","plugin.go"],
 [("word information decoding","dictionary/dalexicon.go: getWordInfo"),("id, dictionary and part-of-speech mapping","dictionary/lexiconset.go: GetWordInfo"),("word ids","dictionary/dicbuilder.go: BuildLexicon, WriteLexicon")],
 ["accessors of Morpheme"])
p("C08","User dictionaries extend the system dictionary without corrupting it",
 "With up to 15 user dictionaries, every user word is found (in the analysis and in a lexicon set) and reports its own part of speech (also one the system dictionary lacks), its split units from its own or the system dictionary, and its dictionary's number in loading order, independently of how many other user dictionaries are loaded; system words are unaffected, and one dictionary too many, or dictionaries with more parts of speech in total than their 16-bit numbers allow, are refused with an error. A part of speech that the system dictionary defines is the same part of speech in a user dictionary, and references from user words to system words resolve. A user word with the automatic cost (-32768) gets the internal cost that segmenting its surface form under the dictionaries loaded before it, without path rewriting, reports (the word cost of the last morpheme minus that of the first), reduced by 20 per morpheme and limited to the 16-bit range.",
 ["configurations","inputs"],"all sets and orders of 0 to 16 user dictionaries and all texts over their words",
 T+"no test loads a dictionary, let alone several.",
 ["dictionary.go","dictionary/lexiconset.go","dictionary/grammar.go","dictionary/dicbuilder.go","dictionary/dalexicon.go","userdicbuilder/main.go"],
 [("loading and automatic costs","dictionary.go: ReadUserDictionary"),("part-of-speech offsets and split conversion","dictionary/lexiconset.go: GetWordInfo, convertSplit"),("user part-of-speech table","dictionary/dicbuilder.go: PosTableUser")],
 ["Morpheme accessors, path costs, error of NewJapaneseDictionary"])
p("C09","The trie finds exactly the stored keys with their values",
 "A double-array trie built from any sorted key set, with values or without, returns for every query exactly the stored value of the key by exact match, exactly the stored keys that are prefixes of the query from the given offset in increasing length (for the list, bounded by the requested maximum, and for the iterator alike), and consistent results for a stepwise traversal; absent keys are never found. Saving and reopening it preserves all answers. Key sets that are unsorted, contain empty keys or NUL bytes, or have negative values are refused with an error rather than a crash or a wrong trie.",
 ["inputs"],"all key sets (any bytes 1-255, shared prefixes and suffixes, repeated values) and all queries and offsets",
 T+"that fixed test uses random keys with distinct values and never misuses the builder, so sharing of equal suffixes, traversal and rejection are not reached.",
 ["dartsclone/da.go","dartsclone/dabuilder.go","dartsclone/dawgbuilder.go","dartsclone/bitvector.go"],
 [("suffix sharing","dartsclone/dawgbuilder.go: flush; dabuilder.go: arrangeFromDAWG"),("unit allocation","dartsclone/dabuilder.go: findValidOffset, reserveId, expandUnits"),("search","dartsclone/da.go")],
 ["public methods of the trie against a sorted-map model"])
p("C10","A built dictionary contains exactly its sources",
 "A dictionary built from lexicon and matrix sources and opened again yields every entry, in order, with the ids, cost, part of speech, surface form, reading, normalized form, dictionary-form reference, splits and word structure of its source line, and every connection cost of the matrix (zero where unspecified); an empty reading or normalized form means the surface form. Looking up any byte string finds exactly the entries whose headword matches at that place, and no entry marked as not to be indexed. The file header keeps type, creation time and description, the file does not depend on anything but its sources, description and build time, and \\uXXXX and \\u{X...} escapes in the source decode to the (non-surrogate) characters they denote.",
 ["inputs","configurations"],"all well-formed lexicon sources (several files, any line endings, escapes, homographs, long strings) and matrices, UTF-8 or UTF-16 strings, system and user dictionaries",
 T+"no test builds or opens a dictionary.",
 ["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/grammar.go","dictionary/bytes.go","dictionary/dicheader.go","dictionary/binarydict.go","dicbuilder/main.go","userdicbuilder/main.go"],
 [("source parsing and escapes","dictionary/dicbuilder.go: readRecord, decode, BuildLexicon"),("layout and offsets","dictionary/dicbuilder.go: WriteGrammar, WriteLexicon, writeWordInfo"),("decoding","dictionary/dalexicon.go, dictionary/grammar.go, dictionary/bytes.go")],
 ["opened dictionary read through its accessors and through tokenization"])
p("C11","UTF-8 and UTF-16 dictionaries are equivalent and convert losslessly",
 "Converting a dictionary between UTF-8 and UTF-16 strings gives a dictionary with the same header, grammar, connection costs, words and lookups; converting back restores the original file byte for byte. Tokenization with a dictionary and with its other-encoding counterpart, converted or built directly, gives identical results.",
 ["inputs","configurations"],"all well-formed system and user dictionaries in both encodings and all texts",
 T+"neither conversion nor the UTF-16 format is touched by a test.",
 ["dicconv/main.go","dictionary/dalexicon.go","dictionary/grammar.go","dictionary/bytes.go","dictionary/dicbuilder.go"],
 [("conversion","dicconv/main.go; dictionary/dalexicon.go: WriteWordInfos"),("string encodings","dictionary/bytes.go; dictionary/dicbuilder.go: writeStringUtf16")],
 ["converter command, opened dictionaries, file bytes"])
p("C12","Dictionary builders refuse malformed sources",
 "The builders end with an error (and a non-zero exit status of the command) for every lexicon line that has the wrong number of columns, an id or cost that is not a 16-bit integer, an over-long string, too many split units, a split of an A-unit word, or a dictionary-form, split or structure reference that is out of range, unknown or incomplete, for a matrix whose size line, indexes or costs are unusable, and for a description longer than the header holds. They never crash, and they never report success while producing a dictionary that cannot be opened or that differs from the source.",
 ["inputs"],"all single and combined malformations of otherwise valid lexicon and matrix sources",
 T+"no test feeds the builders, least of all malformed sources.",
 ["dictionary/dicbuilder.go","dicbuilder/main.go","userdicbuilder/main.go","internal/lnreader/lnreader.go"],
 [("validation","dictionary/dicbuilder.go: BuildLexicon, WriteGrammar, parseSplitInfo, wordToId"),("exit status","dicbuilder/main.go, userdicbuilder/main.go")],
 ["error values and exit statuses of the builders; re-reading what they wrote on success"])
p("C13","Input normalization follows its rules and keeps positions",
 "The normalized text is the left-to-right application of the replacement list (longest match first) and, elsewhere, of lower-casing and NFKC per character except for ignored characters; then each run of two or more prolonged sound marks becomes the replacement symbol. Every normalized character maps back to the original position where its source (the replaced stretch) begins, so that morpheme boundaries report original positions. A malformed replacement list is refused with an error.",
 ["inputs","configurations"],"all texts, replacement and ignore lists (growing and shrinking, adjacent, overlapping), prolonged-mark sets and replacement symbols of any length",
 T+"nothing tests normalization or position mapping.",
 ["definputtextplugin.go","prolongedsoundmarkinputtextplugin.go","inputtext.go","data/assets_vfsdata.go"],
 [("rewriting","definputtextplugin.go: Rewrite; prolongedsoundmarkinputtextplugin.go: Rewrite"),("offset bookkeeping","inputtext.go: Replace"),("list parsing","definputtextplugin.go: readRewriteLists")],
 ["text seen by a later plugin; original index of each normalized position; morpheme spans"])
p("C14","OOV candidates follow the character and OOV definitions",
 "At every position where OOV words may start, the candidates offered are exactly those that the character definition (categories of the characters, continuity of a common category, and each category's invoke, group and length flags) and the OOV definition (ids, cost and part of speech per category) prescribe, given whether dictionary words were found there; the simple provider offers exactly one single-character word when nothing else was found. No OOV word starts inside a run of alphabetic, Greek or Cyrillic letters or at a character that may not begin one unless there is no other word. Malformed or inconsistent definitions are refused with an error.",
 ["inputs","configurations"],"all character and OOV definitions (overlapping ranges, several categories per character, all flag combinations) and all texts",
 T+"no test reads a definition file or produces an OOV word.",
 ["mecaboovproviderplugin.go","simpleoovproviderplugin.go","inputtext.go","dictionary/charcategory.go","tokenizer.go","internal/lnreader/lnreader.go"],
 [("candidate generation","mecaboovproviderplugin.go: ProvideOOV; simpleoovproviderplugin.go"),("category continuity and word starts","inputtext.go: Build"),("definition parsing","dictionary/charcategory.go; mecaboovproviderplugin.go: readOov")],
 ["arguments and results of the OOV providers and the nodes in the lattice"])
p("C15","Numeral joining yields the right value and joins only numerals",
 "With numeral joining enabled, a maximal sequence of words with numeric characters, all of the numeral part of speech, with separators and points between them, that spells a well-formed numeral (Arabic or kanji digits, kanji units, thousands separators, decimal points) becomes one morpheme whose normalized form is its value in plain Arabic decimal notation, or the concatenated normalized forms when normalization is disabled. Sequences that are not well-formed numerals are not merged into one number: separators and points that do not fit stay separate words. Morphemes outside numerals are untouched, and joined morphemes concatenate the attributes of their parts.",
 ["inputs","configurations"],"all sequences of digits, kanji numerals and units, separators, points and other words",
 T+"no test runs the numeral parser or the joiner.",
 ["joinnumericplugin.go","numericparser.go","plugin.go"],
 [("numeral grammar and value","numericparser.go"),("joining","joinnumericplugin.go: Rewrite; plugin.go: ConcatenateNodes")],
 ["path before and after the plugin; morphemes"])
p("C16","Katakana OOV joining merges exactly the qualifying katakana runs",
 "With katakana joining enabled, every run of adjacent katakana morphemes that contains an OOV morpheme or one shorter than the configured length is merged into one morpheme (leaving out leading morphemes that start with a character that cannot begin an OOV word), and no other morpheme changes. The merged morpheme covers the run's span and is either the cheapest candidate word with exactly that span or, if there is none, an OOV morpheme with the configured part of speech whose surface, normalized and dictionary forms are the joined text.",
 ["inputs","configurations"],"all texts mixing katakana dictionary words, katakana OOV words, small kana and prolonged marks with other scripts; all minimum lengths",
 T+"no test runs the katakana joiner.",
 ["joinkatakanaoovplugin.go","plugin.go","lattice.go","inputtext.go"],
 [("joining","joinkatakanaoovplugin.go: Rewrite; plugin.go: ConcatenateOov"),("cheapest candidate","lattice.go: GetMinimumNode")],
 ["path before and after the plugin together with the lattice"])
p("C17","Settings resolve as documented, and invalid ones are refused",
 "Relative dictionary and character-definition paths in a settings document are resolved against the document's own path entry or, without one, that of the documents it is merged into, or else the caller's default directory, while absolute paths stay as they are; merging a further document replaces only what it sets and appends user dictionaries. Plugin lists produce exactly the named plugins, in order, by short name or class name, each with its own options. Unknown plugins, plugin options that are missing, ill-typed, name a part of speech the dictionary lacks or a connection outside its matrix, a configuration without an OOV provider and malformed documents are refused with an error and never crash.",
 ["configurations","inputs"],"all settings documents and pairs of merged documents",
 T+"the settings test parses one document and checks a few fields.",
 ["settingsjson.go","plugin.go","dictionary.go","simpleoovproviderplugin.go","mecaboovproviderplugin.go","joinkatakanaoovplugin.go","joinnumericplugin.go","prolongedsoundmarkinputtextplugin.go","definputtextplugin.go"],
 [("parsing and merging","settingsjson.go: ParseSettingsJSON, getPath"),("plugin creation","settingsjson.go: Get*PluginArray; plugin.go: DefMake*"),("option validation","SetUp of each plugin")],
 ["base configuration, plugin arrays and errors; tokenization with the resulting plugins"])
p("C18","The command-line tool prints one analysis per input line, losing nothing",
 "For every input, from standard input or several files, each line (ended by LF, CRLF or CR, at any length and buffering) is analysed once, in order, as one block of tab-separated morpheme lines with the fields its options ask for followed by an EOS line, identical to what the library reports for that line and mode. Output goes completely to the chosen destination. An analysis error stops the tool with a non-zero status after the output of the preceding lines, or with the ignore option is reported while the remaining lines are still analysed.",
 ["inputs","configurations"],"all byte streams and chunkings of input and all option combinations",
 T+"no test runs the command.",
 ["gosudachicli/main.go","settingsjson.go"],
 [("line splitting","gosudachicli/main.go: normalizer, lineScanner"),("printing and error handling","gosudachicli/main.go: run, runFromReader, main")],
 ["standard output, output file, exit status"])
p("C19","Printing a dictionary reproduces its content",
 "Printing a dictionary lists every word once, in order, with its surface form as headword, its ids, cost, surface form, part of speech, reading, normalized form, dictionary-form reference and split and structure references, so that rebuilding from the printed lexicon gives back the same words (where headword and surface form agree); user dictionaries need and use the system dictionary's parts of speech and are refused without it. Printing a header shows the dictionary's type, creation time and description.",
 ["inputs","configurations"],"all dictionaries, both encodings, system and user",
 T+"no test prints a dictionary.",
 ["dictionary/dicprinter.go","printdic/main.go","printdicheader/main.go"],
 [("printing","dictionary/dicprinter.go: PrintDictionary, splitToString, PrintHeader")],
 ["output of the print commands and library calls; rebuilt dictionary"])
p("C20","Bad dictionary files are refused and resources are released",
 "Opening a file that is not a dictionary of the expected kind (missing, empty, truncated before the end of its header, or of another type) fails with an error and never crashes, in the library and in every command. Closing a dictionary releases its file and memory mappings, and a failed opening, whichever step of loading dictionaries, definitions or plugins failed, leaves no file open and nothing mapped.",
 ["fault_sequences","histories","configurations"],"all wrong or truncated files at each place a file is read and all sequences of opening, failing and closing",
 T+"no test opens a dictionary file.",
 ["dictionary/binarydict.go","dictionary/dicheader.go","dictionary/dicprinter.go","dictionary.go","internal/mmap/mmap_unix.go","printdic/main.go","printdicheader/main.go","dicconv/main.go"],
 [("opening and validation","dictionary/binarydict.go: NewBinaryDictionary, ReadSystemDictionary, ReadUserDictionary"),("closing","dictionary.go: Close; binarydict.go: Close")],
 ["errors, exit statuses, the process's open files and mappings"])
p("C21","Configured connection inhibitions take effect, only where configured",
 "Every left/right id pair listed for connection inhibition in the configuration is never used between adjacent words of a segmentation chosen by the tokenizer, and all other connection costs, and the dictionary file itself, stay unchanged. The restriction applies to every tokenizer created from the dictionary and to no other dictionary opened from the same file.",
 ["configurations","inputs"],"all lists of inhibited pairs (including repeated and extreme ids), matrices and texts",
 T+"no test configures an inhibition.",
 ["inhibitconnectioncostplugin.go","plugin.go","dictionary/grammar.go","lattice.go","dictionary.go"],
 [("applying","inhibitconnectioncostplugin.go: Edit; plugin.go: InhibitConnection; dictionary/grammar.go: SetConnectCost"),("respecting","lattice.go: connectNode")],
 ["connections of the chosen path; connection costs; bytes of the dictionary file"])
p("C22","The debug dump shows the analysis as it was made",
 "With the debug dump switched on, an analysis writes the text after the input text plugins, every candidate word of its lattice once (with the sentence boundaries) with byte range, surface form, word number, part of speech, connection ids and cost and the connection costs from all the words that end where it begins, the path before rewriting, and the result after rewriting and splitting, word for word. An analysis that fails dumps only the stages it reached, and the empty text dumps nothing.",
 ["inputs","configurations"],"all texts, modes, dictionaries and plugin configurations, with forbidden and inhibited connections and failing analyses",
 T+"no test tokenizes or dumps anything, and the dump reads the lattice that all calls of a tokenizer share.",
 ["lattice.go","tokenizer.go"],
 [("lattice dump","lattice.go: Dump"),("stages and paths","tokenizer.go: Tokenize, dumpPath; lattice.go: String")],
 ["the writer set as DumpOutput, compared with lattice and paths as plugins see them"])
p("C23","Plugins get exact views of the text and the lattice",
 "The text handed to a plugin is consistent after any sequence of replacements by input text plugins: for every byte position, its character, categories, continuous stretch of a common category, word-start permission, character boundary and place in the original text, and for every range its text, number of characters, byte length and common categories are those of the rewritten text under the character definition. What a plugin reads is its own copy, and a text built earlier does not change. The lattice handed to a path rewriter returns, for every range, exactly the candidate words with that range and one of the cheapest of them, contains every word of the path, and words that a plugin inserts or removes appear or disappear, and no others, while the lists of the words of a range that it got before stay as they were.",
 ["inputs","histories"],"all texts, character definitions, sequences of non-deleting replacements, positions and ranges, and sequences of insertions and removals",
 T+"no test builds a text or a lattice.",
 ["inputtext.go","lattice.go","plugin.go"],
 [("building the text and its maps","inputtext.go: Replace, Build"),("accessors of the text","inputtext.go: GetSubstring, GetCharCategoryTypesRange, GetCodePointsOffsetLength, GetOriginalIndex, CanBow"),("accessors of the lattice","lattice.go: GetNodes, GetMinimumNode, Insert, Remove")],
 ["methods of InputText, InputTextBuilder and Lattice called from plugins"])
p("C24","No failed reading or writing is taken for success",
 "Whatever reading of a source, settings document or definition, or writing of a dictionary, conversion, printout or analysis fails, at whatever point and also if only once, the library call reports an error and the command ends with a non-zero status and a message. Without a failure the output is complete, however the data is divided into reads.",
 ["fault_sequences","inputs"],"all readers, writers, seekers and devices that fail after any number of bytes or calls, for good or once, and unreadable files, at every place data is read or written",
 T+"no test lets reading or writing fail, and failures matter at every single byte and call.",
 ["dictionary/dicbuilder.go","dictionary/dalexicon.go","dictionary/grammar.go","dictionary/dicprinter.go","dictionary/charcategory.go","internal/lnreader/lnreader.go","settingsjson.go","mecaboovproviderplugin.go","definputtextplugin.go","dicbuilder/main.go","userdicbuilder/main.go","dicconv/main.go","printdic/main.go","printdicheader/main.go","gosudachicli/main.go"],
 [("reading lines","internal/lnreader/lnreader.go: ReadLine; dictionary/dicbuilder.go: readLine; gosudachicli/main.go: lineScanner"),("writing dictionaries","dictionary/dicbuilder.go: WriteGrammar, WriteLexicon; dictionary/dalexicon.go: Write*"),("printing","dictionary/dicprinter.go: PrintDictionary, PrintHeader; gosudachicli/main.go: run")],
 ["errors of library calls; exit status and standard error of commands; bytes written"])
p("C25","Plugins run in order on each other's results, and their errors come out",
 "Opening a dictionary sets every configured plugin up exactly once before using it and lets every connection-cost plugin edit once, in the configured order. Analysing a non-empty text runs every input text plugin once in order, each on the text that the one before left; then the OOV providers on the resulting text, in order, from left to right; then every path rewriter once in order, each on the path that the one before left. The words in the longest mode are those that the last one leaves. An error of any plugin at set-up, editing or analysis is what the opening or the analysis reports, and no plugin is called after it. The public joining helpers replace exactly the given range of the path, by a word that covers it with the joined attributes (or, for an out-of-vocabulary word, by the cheapest word of the lattice with that range, if there is one), and refuse an empty range.",
 ["inputs","configurations","fault_sequences"],"all numbers and orders of plugins of all kinds, also the users' own, all texts, and an error at any call of any plugin",
 T+"no test runs a plugin, and order and error handling matter only with several and failing ones.",
 ["dictionary.go","tokenizer.go","plugin.go","inputtext.go","lattice.go"],
 [("setting up and editing","dictionary.go: NewJapaneseDictionary"),("running in an analysis","tokenizer.go: Tokenize, buildLattice"),("joining helpers","plugin.go: ConcatenateNodes, ConcatenateOov")],
 ["calls that plugins receive and what they see; MorphemeList and error of Tokenize and NewJapaneseDictionary"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
