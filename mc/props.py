import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","HSL text is read exactly as written",
 "Parsing a well-formed HSL document yields exactly the sections it declares, each with its kind (dictionary or pair list), its pairs in written order for lists, every key and every value string unchanged (bare words, quoted strings with commas, colons, hashes, arrows or \\\" escapes inside, non-ASCII text), and the line number of each section's and pair's place in the text. Indentation, blank lines, comments (on their own line, after a section header, or after the values of a pair) and spacing around delimiters change nothing but line numbers.",
 ["inputs"],"every document built from a grammar of sections, pairs, values and layouts up to a size bound",
 "The tests parse about a dozen fixed snippets; the interaction of layout, comments, quoting and position is combinatorial, and a trailing comment used to swallow the following pair unnoticed.",
 ["pkg/hsl/lexer.go","pkg/hsl/parser.go","pkg/hsl/structures.go"],
 [("one-rune look-back lexer","pkg/hsl/lexer.go"),("token-driven section and pair assembly","pkg/hsl/parser.go"),("dictionary and list sections","pkg/hsl/structures.go")],
 ["hsl.Parse","Section.Pairs / Line / Map / One / All / Injective"],
 [("lastString / sectionName","the pending key and the open section while parsing","pkg/hsl/parser.go"),("line / prevLine","line counter with one step of rewind","pkg/hsl/lexer.go")])
p("C02","Any text either parses or is refused with an error",
 "For every input text, parsing an HSL document or a spec terminates and either returns a result or returns an error; it never panics and never loops. An unterminated quoted string, a dash that is not an arrow, an illegal character (including NUL), a pair outside any section, a key repeated in a dictionary section, a well-known spec section of the wrong kind, a rule or example without a right-hand side, a language section without exactly two codes, a macro with several values and an unknown script are refused with an error rather than accepted or ignored.",
 ["inputs"],"every token sequence up to a length bound, and every prefix, deletion and substitution of bundled specs at token granularity",
 "Tests only feed well-formed specs; malformed input used to hang the lexer, panic it, or be silently accepted.",
 ["pkg/hsl/lexer.go","pkg/hsl/parser.go","pkg/hsl/structures.go","spec.go"],
 [("Illegal token and error returns","pkg/hsl/parser.go"),("section validation","spec.go")],
 ["hsl.Parse","hangulize.ParseSpec"])
p("C03","A failing or slow reader never yields a truncated spec",
 "If the reader given to a parser fails at any point with an error other than end-of-file, parsing returns that error and no spec, whatever had been read before. If the reader delivers the text in pieces of any sizes, with empty reads or with data and end-of-file together, the result equals that of parsing the text at once, and the spec's source text is the complete input.",
 ["fault_sequences","inputs"],"every failure position and every chunking pattern of a set of documents, one injected fault per run plus pairs of short reads",
 "No test uses a reader other than an in-memory string; an I/O error in the middle used to be taken for the end of the file and a truncated spec was returned as complete.",
 ["pkg/hsl/lexer.go","pkg/hsl/hsl.go","spec.go"],
 [("sticky reader error","pkg/hsl/hsl.go"),("TeeReader copy of the source","spec.go")],
 ["hsl.Parse","hangulize.ParseSpec","Spec.Source"])
p("C04","HRE patterns match exactly where the notation says",
 "The matches of an HRE pattern in a word are found from left to right without overlapping and are exactly those described by the notation: ^ and $ hold only at the start and end of a chunk (text edge, whitespace or the {} mark), ^^ and $$ only at the edges of the whole string, {..} and {~..} require or forbid their content next to the match without being part of it, <var> and macros stand for their values. This holds for every repeated match in the same word and for letters of any UTF-8 width.",
 ["inputs","programs"],"every pattern of a small grammar (edges x lookarounds x cores, with vars, macros, groups, alternation and repetition) on every word up to a length bound over an alphabet of 1- to 4-byte letters, space and {}",
 "Each test shows a handful of (pattern, word) pairs; offsets after an earlier match, multi-byte widths and window clamping were all wrong in untested combinations.",
 ["pkg/hre/pattern.go","pkg/hre/assertions.go","pkg/hre/util.go","pkg/hre/var.go","pkg/hre/macro.go"],
 [("translation to a standard regexp with edge/look groups","pkg/hre/assertions.go"),("cursor loop and negative lookaround windows","pkg/hre/pattern.go")],
 ["Pattern.Find"],[("offset","cursor of the search loop","pkg/hre/pattern.go")])
p("C05","Replacement rewrites matches only and maps variables by position",
 "Replacing with a rule changes exactly the matched text, each match independently, and leaves every other byte of the word as it was; n limits the number of matches. A <var> on the right side stands for the value at the same position as the value matched by the corresponding <var> of the pattern's core (not of its lookarounds), macros and {} are substituted literally, and when no correspondence exists the text is left unchanged instead of failing.",
 ["inputs","programs"],"every (pattern, replacement) pair of a small grammar with up to two variables per side, on every word up to a length bound",
 "Tests use one or two vars in fixed positions; a variable inside a lookaround or a user group shifted the correspondence and crashed.",
 ["pkg/hre/rpattern.go","pkg/hre/pattern.go","rule.go","internal/subword/replace.go"],
 [("capturing group bookkeeping","pkg/hre/rpattern.go"),("buffered replacement","internal/subword/replace.go")],
 ["Pattern.Replace","RPattern.Interpolate","Rule.Replace"])
p("C06","Negative lookarounds are bounded and bad patterns are refused",
 "The reported width of a negative lookahead or lookbehind is an upper bound of the number of letters it can match, and unlimited exactly when it can match arbitrarily long text; a spec rule with an unlimited negative lookaround is refused. An empty pattern, a zero-width group in the middle of a pattern and an invalid expression are refused with an error, never with a panic.",
 ["programs"],"every lookaround expression of a regular-expression grammar up to a size bound, against an independent width computation and brute-force language enumeration",
 "The width table in the tests has ten fixed expressions; nested repeats of unlimited parts were reported as limited.",
 ["pkg/hre/width.go","pkg/hre/pattern.go","pkg/hre/assertions.go","spec.go"],
 [("recursive width of the parsed regexp","pkg/hre/width.go"),("rejection of unlimited negative lookaround","spec.go")],
 ["hre.RegexpMaxWidth","Pattern.NegativeLookaroundWidths","hre.NewPattern","hangulize.ParseSpec"])
p("C07","Jamo sequences compose into exactly the written syllables",
 "Composing a sequence of Jamo gives the Hangul text it spells: every lead, vowel and hyphenated tail ends up in the syllable it belongs to, a missing lead is silent ieung and a missing vowel is eu, a composed syllable can still take a following tail, any other character passes through in place and separates syllables. Decomposing any of the 11,172 modern syllables and composing it again gives it back, alone or after any other syllable.",
 ["inputs"],"every symbol sequence up to a length bound over a representative alphabet, every (composer state, symbol) pair over the full alphabet, and all ordered pairs of syllable classes",
 "The tests compose about ten strings; the automaton has many (state, symbol) pairs that no example reaches.",
 ["internal/jamo/jamo.go"],[("three-slot syllable buffer automaton","internal/jamo/jamo.go")],
 ["jamo.ComposeHangul","transcription results"],[("lmt, score, prevScore","pending syllable and how far it is filled","internal/jamo/jamo.go")])
p("C08","The transcription procedure applies a spec as defined",
 "For every spec and word, transcription normalizes the word, splits it into chunks of meaningful and meaningless letters, applies the rewrite rules one after another in written order (each to the result of the previous one), applies the transcribe rules in order to letters not yet transcribed only (a transcribed part is never matched again), drops leftover letters while keeping one space for leftover whitespace, and composes the Hangul result. Letters with no meaning in the spec appear unchanged and in place, and a chunk's rules never look across such a letter.",
 ["programs","inputs"],"every spec made of up to three small rules from a rule alphabet, on every word up to a length bound including spaces, punctuation, upper case, foreign letters and invalid bytes",
 "The test suite runs example words of finished specs; rule-order, masking, level and partition interactions on arbitrary specs and words are not reached.",
 ["procedure.go","rule.go","spec.go","internal/subword/replace.go","internal/subword/builder.go"],
 [("levelled subwords","internal/subword"),("NUL masking of transcribed parts","procedure.go"),("sequential rewrite","procedure.go")],
 ["Hangulizer.Hangulize"],[("subword levels","0 untouched, 1 meaningful, 2 transcribed","internal/subword/replace.go")])
p("C09","Bundled languages transcribe every word by their own rules",
 "For each of the bundled languages and every word, the transcription equals what the language's published rule file prescribes when its rules are applied by the definition of the notation and the procedure. It never panics and always returns a result.",
 ["inputs"],"for each bundled language: every word up to a length bound over its own alphabet, every word derived from each rule's pattern in edge and middle position, and every one-edit variant of its examples",
 "The suite checks the 4,000 example words of the rule files; every other word is unchecked.",
 ["procedure.go","spec.go","pkg/hre/pattern.go","pkg/hsl/parser.go","internal/jamo/jamo.go","specs/*.hsl"],
 [("whole pipeline","procedure.go"),("rule compilation","pkg/hre/pattern.go")],
 ["hangulize.Hangulize","Hangulizer.Hangulize"])
p("C10","Bundled Latin-script languages leave no letter untranscribed",
 "For every bundled language written in the Latin script (Chinese excepted, which is read from Hanzi), every word over the basic letters a-z, apostrophe, hyphen and space transcribes to text made of Hangul syllables and the word's own spaces and punctuation only: no Latin letter, no loose Jamo, no replacement or control character, no rule hint leaks into the result. Upper-case input gives the same result as lower-case input wherever the language does not itself distinguish the case.",
 ["inputs"],"every word up to a length bound over the basic alphabet for each such language, in lower and upper case",
 "Examples cover real words only; leaks appear on letter combinations no example contains.",
 ["procedure.go","specs/*.hsl","internal/scripts/latn.go"],
 [("superfluous letters are discarded","procedure.go"),("script normalization","internal/scripts/latn.go")],
 ["hangulize.Hangulize"])
p("C11","Script normalization folds every letter to its base form",
 "Before the rules are applied, every letter of the spec's script is folded: Latin letters to the lower-case base letter without diacritics, Cyrillic and Greek letters to lower case, Hiragana to Katakana, Georgian letters unchanged; letters of other scripts are left alone. Letters produced by the spec's own normalize table, every letter of each of its targets, are exempt from folding, and the table is applied first with the longest source winning.",
 ["inputs"],"every Unicode code point under every script, and every normalize table of a small family on every word up to a length bound",
 "Tests check two or three letters per script; the fold used to be wrong for every letter with a non-ASCII base.",
 ["internal/scripts/latn.go","internal/scripts/cyrl.go","internal/scripts/grek.go","internal/scripts/geor.go","internal/scripts/hrkt.go","spec.go","procedure.go"],
 [("per-script Is/Normalize","internal/scripts"),("normLetters exemption","spec.go")],
 ["Hangulizer.Hangulize","Trace Normalize events"])
p("C12","Foreign text and punctuation survive transcription in place",
 "Letters, digits and symbols that the spec does not use come out unchanged, in the same order and number, between the transcriptions of the chunks around them, and the result of a text is the concatenation of its chunks' results. Japanese punctuation is localized to Korean typography with a space added only where none is adjacent (not next to another punctuation, a space or the text edge); other punctuation is untouched; runs of whitespace become one space and zero-width spaces disappear.",
 ["inputs"],"every arrangement up to a length bound of chunks, separators of every general category, whitespace and all localized punctuation, for every script",
 "Two or three tests with a single separator; neighbours and repetition are not covered.",
 ["procedure.go","internal/scripts/hrkt.go","space.go"],
 [("partition by meaningful letters","procedure.go"),("localize with neighbour trimming","procedure.go")],
 ["hangulize.Hangulize"])
p("C13","Transcription is a pure function of spec, translits and word",
 "A transcription's result depends only on the spec, the translits in use and the word: repeating it, interleaving it with other words, languages or failing calls, tracing it or not, unloading and reloading the spec or using a second hangulizer of the same spec never changes it. No call alters the spec, its rules or its examples, and values handed out (language lists, translit maps, match results) are the caller's own: changing them changes no later result.",
 ["histories"],"every operation sequence up to a depth bound over a set of calls on shared and separate objects",
 "Each test calls an API once on fresh state; leaks between calls need particular sequences.",
 ["hangulize.go","procedure.go","specs.go","translit.go","trace.go","internal/subword/builder.go"],
 [("per-call procedure and buffers","hangulize.go"),("detached copies","translit.go")],
 ["Hangulizer.Hangulize","LoadSpec","Translits","ListLangs"],[("spec cache, default registry","package-level mutable state","specs.go, translit.go")])
p("C14","Results do not depend on map iteration order",
 "No observable result (parsed spec, transcription, transliteration, manifest, coverage figure, test verdict) depends on the iteration order of maps: every order a run may choose gives the same result, in the same and in different processes. Where several table entries could apply at one place in the text, the longest one wins.",
 ["schedules","configurations"],"every iteration offset the runtime may choose for every map iteration executed by the scenarios, explored by deviations from the default order",
 "A test run samples one random order per iteration; an order-dependent result passes or fails by luck, and the Cyrillic transliteration did differ between processes.",
 ["translit/cyrillic/cyrillic.go","spec.go","pkg/hre/macro.go","pkg/hre/pattern.go","pkg/hsl/structures.go"],
 [("sorted tables before building replacers","spec.go, pkg/hre/macro.go, translit/cyrillic/cyrillic.go")],
 ["hangulize.ParseSpec","Translit.Transliterate","hangulize.Hangulize"],None,None)
p("C15","The API is safe and atomic under concurrent use",
 "Package-level functions and methods of one hangulizer may be called from several goroutines at once: there is no data race, deadlock or panic, and every call's outcome equals its outcome in some sequential order of the calls. In particular concurrent registrations of one scheme succeed exactly once, concurrent loads of one language give one and the same spec while it stays loaded, and transcriptions running at the same time give the results they give alone.",
 ["schedules"],"every interleaving at synchronization operations up to a preemption bound of two or three goroutines with one to three calls each, under the race detector",
 "No test uses more than one goroutine; the cache, the registries and the lazy dictionary were unsynchronized.",
 ["specs.go","translit.go","hangulize.go","translit/furigana/furigana.go","translit/cyrillic/dict.go"],
 [("specsMutex","specs.go"),("translitMutex","translit.go"),("once","translit/furigana/furigana.go")],
 ["LoadSpec","UnloadSpec","UseTranslit","UnuseTranslit","Translits","Hangulize","Translit.Transliterate"],
 [("specs","spec cache","specs.go"),("defaultTranslitRegistry","shared registry","translit.go")])
p("C16","Traces report the real course of a transcription",
 "With a trace function set, the events of a call are, in order, the input, each transliteration, the normalizations, every rewrite rule and then every transcribe rule that changed the word (with the rule), the composed and the localized word; each event carries the whole word after that step, no event repeats the previous word, and the last event's word is the result. Setting, replacing or removing the trace function never changes the result, and no event is delivered to a function that has been replaced.",
 ["inputs","programs","histories"],"every spec and word of the C08 family and the bundled languages, and every short sequence of trace (re)settings",
 "Tests assert a single trace of one word.",
 ["trace.go","procedure.go","hangulize.go"],
 [("tracer with previous word","trace.go"),("per-rule subword records merged on commit","trace.go")],
 ["Hangulizer.Trace"],[("prevWord, records","last emitted word; pending per-rule words","trace.go")])
p("C17","Translit registries behave as sets keyed by scheme",
 "Using a translit succeeds exactly when no translit of its scheme is present, and never replaces the present one; unusing succeeds exactly when the scheme is present. A hangulizer's registry, the default registry and other hangulizers' registries are independent, and a returned map of translits is a copy of the moment it was taken.",
 ["histories"],"every operation sequence up to a depth bound over two hangulizers, the default registry and colliding schemes, against a map model",
 "One test adds and removes one translit.",
 ["translit.go","hangulize.go"],[("map-backed registry","translit.go")],
 ["UseTranslit","UnuseTranslit","Translits"],[("translitRegistry","scheme to translit","translit.go")])
p("C18","Translits run in order and their failures are reported",
 "A spec's translits are applied in the order the spec lists them, each to the output of the previous one, before normalization. If one is not in use the call returns an error identifying a missing translit and its scheme; if one fails the call returns an error identifying a translit failure and its scheme; in both cases no later translit runs and no transcription is returned. The package-level function uses the default registry and reports an unknown language by an error while returning the word itself.",
 ["fault_sequences","configurations"],"every assignment of present / missing / failing to up to three listed translits, with duplicates, unused extras and changes between calls",
 "Tests cover one missing translit; order, failure position and later side effects are not tested.",
 ["procedure.go","hangulize.go","errors.go","specs.go"],[("translit loop","procedure.go"),("sentinel errors","errors.go")],
 ["Hangulizer.Hangulize","hangulize.Hangulize","errors.Is"])
p("C19","Loading specs is consistent with the bundled files",
 "Loading a listed language returns its spec, the same one on every load until it is unloaded and an equal one afterwards; a language that is not listed is reported as not found, never cached and never a panic, whatever its name. The list of languages is sorted, complete and unaffected by loading or by changes to previously returned lists, and a loaded spec's fields equal the contents of its rule file.",
 ["histories","inputs"],"every load / unload / list sequence up to a depth bound over two languages and odd names, and every bundled language against an independent reading of its file",
 "Tests load each language once.",
 ["specs.go","spec.go"],[("spec cache","specs.go"),("embedded files","specs.go")],
 ["ListLangs","LoadSpec","UnloadSpec"],[("specs","cache","specs.go")])
p("C20","Hanzi are read in pinyin one by one",
 "Transliterating Chinese text replaces each Hanzi by its toneless pinyin reading and keeps every other character, separating neighbouring readings and foreign runs by one zero-width space, with none at the ends; the text is treated the same in composed and decomposed Unicode forms. Transliterating a concatenation equals joining the parts' transliterations, and it never fails.",
 ["inputs"],"every code point alone, and every arrangement up to a length bound of Hanzi, foreign letters, spaces and compatibility forms",
 "Tests have three phrases.",
 ["translit/pinyin/pinyin.go"],[("chunk buffer","translit/pinyin/pinyin.go")],["pinyin.T.Transliterate","hangulize.Hangulize(\"chi\", ..)"])
p("C21","Romanized Cyrillic is read by the longest table entry",
 "For each supported country, transliterating a word scans it from left to right and replaces, at each place, the longest entry of the country's table that matches there, leaving everything else unchanged; the same word always gives the same result, and the schemes are cyrillic[bg], cyrillic[mk], cyrillic[ru] and cyrillic[ua]. Text already in Cyrillic is unchanged unless the table says otherwise.",
 ["inputs"],"every word up to a length bound over each table's letters, plus every pair of table entries in sequence",
 "No test calls the Cyrillic translit on overlapping entries.",
 ["translit/cyrillic/cyrillic.go","translit/cyrillic/dict.go","translit/cyrillic/dict.json"],
 [("longest-first replacer","translit/cyrillic/cyrillic.go")],["cyrillic.Ts","Translit.Transliterate"])
p("C22","Japanese is read as Katakana with marks resolved",
 "Transliterating Japanese text resolves the iteration marks (unvoiced and voiced, Hiragana and Katakana separately) from the preceding kana, marks long vowels only where a vowel really continues the preceding syllable, separates a family name from a following given name by one space, and keeps characters it cannot read. It never fails or panics, gives the same result on every call, and treats composed and decomposed kana alike.",
 ["inputs"],"every kana sequence up to a length bound including all iteration marks and vowels, and every morpheme-class sequence up to a length bound",
 "Tests check about twenty phrases.",
 ["translit/furigana/repeat.go","translit/furigana/longvowel.go","translit/furigana/typewriter.go","translit/furigana/furigana.go"],
 [("iteration mark resolution","translit/furigana/repeat.go"),("long vowel relations","translit/furigana/longvowel.go"),("token typewriter","translit/furigana/typewriter.go")],
 ["furigana.T.Transliterate"])
p("C23","Installing all translits is all or nothing",
 "Installing the bundled translits, into the default registry or one hangulizer, either adds every one of them and reports success, or, if any of their schemes is already in use, reports failure and leaves the registry exactly as it was before the call. Installing touches only the chosen registry, and uninstalling what a failed installation did not add is never done.",
 ["histories","configurations"],"every subset of schemes already in use, in both targets, followed by every short sequence of further installs and removals",
 "The test installs into an empty registry only.",
 ["translit/translit.go"],[("roll-back loop","translit/translit.go")],["translit.Install","Translits"])
p("C24","The command-line tool prints one result per word in order",
 "Given words as arguments or lines on standard input, the tool prints exactly one line per non-empty word, in order, equal to the library's transcription with the bundled translits, and exits with success; input lines are trimmed, a last line without a newline counts, and input ends at the first blank line. An unsupported language, an unreadable or invalid rule file and a failing word end the tool with a non-zero status, and verbose output adds the trace without changing the results.",
 ["inputs","histories"],"every argument list and input text up to a length bound over words, blanks, line ends and failing words",
 "No test runs the tool.",
 ["cmd/hangulize/main.go","cmd/hangulize/dev.go"],[("word channel with an empty-word end mark","cmd/hangulize/main.go")],["hangulize LANG [WORD..]","hangulize dev HSL"])
p("C25","Rule-file testing gives a true verdict and coverage",
 "Testing rule files reports success exactly when every example of every given file transcribes to its expected result, names each failing example with the word, the actual and the expected result, and otherwise exits with failure. The coverage equals the share of rewrite and transcribe rules that changed some example word, and the profile lists every rule of every file once, at its line, with whether it was covered, replacing any previous content of the profile file.",
 ["inputs","programs"],"every small rule file with up to three rules and examples (passing, failing, erroneous), with and without each section, alone and in pairs, with and without coverage and an existing profile",
 "No test runs the command.",
 ["cmd/hangulize/test.go","cmd/hangulize/cover.go"],[("trace-driven cover set","cmd/hangulize/cover.go")],["hangulize test [--cover] [--coverprofile FILE] HSL.."])
p("C26","Catalogues list every spec faithfully",
 "The list command and the manifest name every bundled language exactly once with the metadata of its rule file (identifier, codes, names, script, stage, authors, translits, examples), and the manifest names every translit scheme any language needs exactly once. The list command given files lists those that are valid specs, in the given order, and skips the others without failing.",
 ["configurations","inputs"],"every bundled language, and every sequence up to a length bound of valid, invalid and missing files",
 "No test runs either command.",
 ["cmd/hangulize/ls.go","cmd/manifest.json/main.go"],[("ListLangs loop","cmd/hangulize/ls.go"),("jsonSpec","cmd/manifest.json/main.go")],["hangulize ls [HSL..]","manifest.json"])
p("C27","Printed traces are complete and aligned",
 "Printing a sequence of traces writes every trace once, in order, its word followed by its rule or reason when it has one, under a heading for each run of the same step, and never fails. Within a run of traces whose words grow no wider than earlier ones the reasons are aligned in one column by display width.",
 ["inputs"],"every trace sequence up to a length bound over steps, word widths (including wide letters and empty words), rules and reasons",
 "One test prints one fixed trace list.",
 ["pkg/tracefmt/tracefmt.go"],[("running column width","pkg/tracefmt/tracefmt.go")],["tracefmt.FprintTraces"],[("columns","width of the word column so far","pkg/tracefmt/tracefmt.go")])
p("C28","The WebAssembly API gives the library's results",
 "In the WebAssembly build, the promise returned for a language and a word settles exactly once: resolved with exactly the library's result, or rejected with an error when the library reports one; trace callbacks receive the library's trace events in order before it settles, and calls made at the same time do not disturb one another. A JavaScript translit is used for its scheme until it is unused, is registered at most once per scheme, and its resolved value or rejection decides the outcome of the call.",
 ["inputs","schedules"],"every sequence up to a length bound of calls over languages, words, translits that resolve or reject at once or later, in every settlement order",
 "Three tests call it once each with immediate results.",
 ["cmd/hangulize.wasm/hangulize.go","cmd/hangulize.wasm/translit.go","cmd/hangulize.wasm/encode.go"],
 [("goroutine per call","cmd/hangulize.wasm/hangulize.go"),("then/catch channels","cmd/hangulize.wasm/translit.go")],["hangulize(lang, word, trace)","hangulize.useTranslit"])
for x in P: assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
