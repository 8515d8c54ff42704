T_MON = 'runtime monitoring: '
prop('C01', 'Lossless round trip between Indic scripts',
     'Text written in one Indic (Brahmic or related) script with letters that two scripts both distinguish, converted to the other script without nativization and back, is again exactly the original text. '
     'This holds for every sequence of vowels, consonant clusters, vowel signs, anusvara/visarga/candrabindu and final consonants, in single words and in running text.',
     ['inputs', 'configurations'], 'all words over the shared letter inventory of a pair of Indic scripts, all pairs',
     'The tests convert a few fixed sample texts per script in one direction; a lost or merged letter in some cluster, position or pair of scripts is outside them.',
     MAIN, 'per-script character tables (ScriptMap), Fix<Script> functions applied in both directions, longest-match replacement in convertScript',
     T_MON + 'inverse-law oracle over executions of generated and systematic text',
     'Each execution is judged exactly (string equality). Every akshara and every two-consonant cluster of every script is run through Devanagari and back, plus random words, running text and a sample of script pairs (all pairs in the thorough tier). Trusted: the hand-audited inventory of what each script can write distinctly (spec/indic.json).')
prop('C02', 'Lossless round trip through romanization schemes',
     'Indic text converted to a romanization or other alphabetic scheme (IAST, ISO, HK, ITRANS, Velthuis, WX, SLP1, Titus, IPA, Cyrillic, the LoC schemes, Avestan, ...) without nativization and back is exactly the original text, as far as the scheme distinguishes its letters. '
     'Ambiguous digraphs (aspirate against stop + h, diphthong against vowel pair) are kept apart, and text converted from one scheme to another and back is also unchanged.',
     ['inputs', 'configurations'], 'all words over the letter inventory of each scheme, from any Indic script and between schemes',
     'The tests hold one fixed sample text per scheme; ambiguity of digraphs only shows for particular adjacent letters.',
     MAIN, 'Roman tables, the internal Inter scheme, RomanPreFix / FixRomanOutput / PostFixRomanOutput, schwa and dependent-vowel markers',
     T_MON + 'inverse-law oracle over executions of generated and systematic text',
     'As C01 for every romanization and alphabetic scheme; string equality per execution. Trusted: the audited inventories in spec/indic.json, which leave out sequences a scheme cannot write distinctly.')
prop('C03', 'Path independence: the source script does not change the result',
     'The same word spelled in any supported script or scheme converts to the same text in a given target (without nativization): converting from script A equals converting the Devanagari (or any other) spelling of that word.',
     ['inputs', 'configurations'], 'all words over the common inventory, all ordered pairs of scripts and schemes',
     'Tests exercise about one source per target; there are 20,000 ordered pairs, each with its own combination of source and target specific code.',
     MAIN, 'source-side and target-side fixes keyed on script names in Convert.convertScript, ConvertFix.FixIndicOutput, PreProcess.PreProcess',
     T_MON + 'commuting-path differential oracle over executions',
     'Equality of two executions of the real code. Quick: 9,000 of 19,659 pairs, 50 words each; thorough: all pairs, 250 words each. 363 pairs whose conventions differ by design (one-way abjads, language-specific readings) are outside the claim, listed in spec/pairs.json.')
prop('C04', 'Every letter, digit and sign maps to its counterpart',
     'Each vowel, consonant, vowel sign, mark, digit, danda and avagraha of the common Indic repertoire is written in every script and scheme as that script\'s own counterpart letter, in both directions and between any two scripts, '
     'and a word is written letter by letter: a combination of two letters is the two counterparts joined by the script\'s own rules. Every letter of a script\'s own Unicode block is read as the sound it stands for.',
     ['inputs', 'configurations'], 'all letters, digits and signs and their two-letter combinations, all scripts and schemes, all ordered pairs',
     'Sample texts do not contain the rare letters, digits and marks of 145 scripts, and a consistent swap of two letters survives any round trip.',
     MAIN, 'character tables in ScriptMap/*, index alignment of the tables in GeneralMap.CrunchSymbols, extra and fallback mappings in FallBack.py',
     T_MON + 'reference-table oracle over executions',
     'Each letter and combination executed is compared with a frozen correspondence table (spec/letters.json, spec/reverse.json) that was generated from the tables, compared with Unicode character names and audited. Complete over the table; thorough: all ordered pairs. Trusted: that table.')
prop('C05', 'Words and lines convert independently of the text around them',
     'Converting a text gives the same result as converting its words and lines one call each and putting them together again: no neighbour, position in the text or length of the text changes how a word is written, spaces, tabs and line breaks stay where they are, '
     'with and without nativization. (Scripts with a word separator of their own write it in place of the space.)',
     ['inputs', 'sequences'], 'all texts composed of words, separators and numbers, all pairs of scripts, nativize on and off',
     'Tests compare whole fixed texts; a rule whose pattern reaches over a word boundary, or depends on what else occurs in the text, shows only for particular neighbours.',
     MAIN, 'global replacements over the whole string; patterns with look-around across word boundaries; word-initial and word-final rules',
     T_MON + 'compositionality oracle: execution on the text against executions on its parts',
     'String equality of the execution on a composed text with the composition of single-call executions. Random texts, quick about 2,500 runs over all scripts and 1,500 pairs, thorough all scripts and most pairs; words of a script\'s own letters, and lines of words that reach each rewriting rule (spec/triggers.json.gz). Exceptions by design (separators, PhagsPa syllable spacing, whole-text flags of five sources) are listed in props/c05.py.')
prop('C06', 'Text of neither script passes through unchanged and nothing internal leaks out',
     'Characters that belong to neither the source nor the target (other scripts, symbols, emoji, brackets and marks the scheme does not use) stay exactly as and where they are, and do not change the words next to them; '
     'and converted text consists of characters of the target script only: the markers the converter uses internally never appear in the result.',
     ['inputs'], 'all foreign characters in all positions around words, all pairs of scripts, nativize on and off',
     'The test texts hold little but the script itself and a danda; foreign text next to particular letters is unbounded.',
     MAIN, 'private-use and rare code points used as internal markers (U+F000, U+1E7F, U+02BD ...) and regular expressions built from script characters',
     T_MON + 'invariance and alphabet-closure oracles over executions',
     'Each execution on words with a foreign character in one of six positions is compared with the words alone; each converted word is checked against the frozen alphabet of the target (spec/alphabet.json). Marks a scheme uses itself are excluded (spec/foreign.json).')

prop('C07', 'Conversion always answers',
     'Any text whatever (empty, control characters, private-use and unassigned characters, regular expression metacharacters, any mix of scripts, very long runs of one letter) between any two supported scripts, schemes and codes, auto-detected sources included, '
     'with and without nativization and with any options, singly or combined, is answered with a string: no exception and no hang.',
     ['inputs', 'configurations'], 'all strings, all pairs of scripts and schemes, all options',
     'Tests hold well-formed sample text only; user text is arbitrary, and an option or a pair that no test names may raise on any of it.',
     MAIN, 'getattr(PreProcess/PostProcess, option), table look-ups by index, regular expressions built from tables, dynamic imports of script tables',
     T_MON + 'exception, type and CPU-time monitors over hostile and stress workloads',
     'Every execution must return a str within 40 s of CPU time. Quick: 9,000 of 33,000 pairs with 5 texts, every option 8 times, the numeral and punctuation options on every script on both sides, random combinations, long runs; thorough: all pairs with 26 texts. Lone surrogates are left out.')
prop('C08', 'A result depends on the arguments only, not on earlier calls',
     'Each conversion gives the same result as in a process that has converted nothing before, whatever was converted before it, with whatever scripts and options, and even if earlier calls failed half way; repeating a call repeats its result; '
     'the lists of options handed in (and the default ones) are never changed.',
     ['histories', 'sequences', 'crash points'], 'all sequences of calls, including calls that raise or are interrupted at any function call',
     'Each test is one call in a process of its own order; state carried over shows only after a particular earlier call.',
     [A + 'transliterate.py', A + 'GeneralMap.py', A + 'Convert.py', A + 'PreProcess.py', A + 'PostProcess.py'], 'module level tables and caches, default list arguments, lists returned by CrunchList and shared between calls',
     T_MON + 'differential oracle: executions after long histories against executions in freshly forked processes, with injected faults',
     'Baseline of each of 2,600 calls (thorough 40,000) from a fork of a process that has only imported the package; the same calls repeated in long-lived processes in two orders, next to calls sharing a script or text, and after calls made to raise at a chosen function call.')
prop('C09', 'Concurrency, hash seeds and the environment do not change results',
     'Conversions running in several threads at once, from the first (cold) call on, give the results they give alone; and so do processes with other hash seeds, locales, encodings, time zones and optimization levels.',
     ['schedules', 'configurations'], 'all interleavings of threads, all hash seeds and locale settings',
     'Tests are single-threaded in one environment; iteration over sets and shared scratch state depend on the hash seed and the schedule.',
     [A + 'transliterate.py', A + 'Convert.py', A + 'GeneralMap.py', A + 'gimeltra.py'], 'module level state, lazy imports and caches filled on first use, iteration order of sets',
     T_MON + 'schedule perturbation (microsecond switch interval, injected yields at function calls) with a sequential-equivalence oracle',
     'Rounds of 2 to 8 threads started cold or warm, on shared or distinct script pairs, with injected yields; the number of thread switches seen inside the package is recorded as evidence. 15 environments (thorough 55) as separate processes. Schedules are sampled, not enumerated.')
prop('C10', 'Converting text has no effect but its result',
     'A conversion writes nothing to standard output or error, creates, changes and removes no file, starts no process or connection (except the documented Tamil to IPA service), and leaves the state of the process (environment, working directory, locale, random generator, signal handlers, limits) as it was; '
     'memory and open files do not grow with the number of conversions.',
     ['inputs', 'configurations', 'histories'], 'all calls of the conversion functions',
     'Tests look at the returned string only; an effect occurs for particular scripts, options or texts.',
     [A + 'transliterate.py', A + 'Convert.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'gimeltra.py'], 'print left over from debugging, files and services read during conversion, caches',
     T_MON + 'interpreter audit events, descriptor level capture of output, process state snapshots and allocation tracing judged online around every call',
     'Every audit event of every watched call is judged; growth is measured with tracemalloc after 1,300 warm-up calls. Messages of the logging module (about scripts without tables) and what the libraries behind KhmerWordSplit and kana do on loading are left out.')
prop('C11', 'Names and codes select the script they stand for',
     'Script names are matched in any case; an ISO 15924 script code, a language code, a language-script combination or a language name (param= script_code, lang_code, lang_name) gives exactly the conversion of the script it stands for, as source and as target, with nativize and the options passed through; '
     'convert, convert_default and process agree; an unknown name is warned about and leaves the text alone, an unknown code is refused with an error that names it.',
     ['inputs', 'configurations'], 'all names in any case, all codes and combinations, all options',
     'No test uses the code parameters; there are over a thousand codes.',
     [A + 'transliterate.py', A + 'yaml/aksharamukha-scripts.yaml', A + 'yaml/wikitra2-data.yaml'], 'process_default, process_script_tag, process_lang_tag, process_lang_name',
     T_MON + 'reference-table oracle (frozen table of 1,160 codes) and differential execution',
     'Each code is executed on both sides with the whole alphabet of the script and random words, and compared with the execution by name. Trusted: spec/codes.json, audited against the list of scripts.')
prop('C12', 'Detecting the script of a text',
     'auto_detect names the script that most characters of a text belong to, wherever they stand and whatever else is mixed in, and tells scripts and schemes that share characters apart by the letters only one of them has (Assamese, Lao Pali, Mon, Shan, Tai Laing, Khamti Shan, the Syriac and Arabic varieties, the Latin schemes); '
     'in plug-in mode Latin text around is passed over; the Pali orthographies of Thai and Lao are told apart by their signs; and converting with source "autodetect" (by name or with codes) is exactly converting from the detected script with the detected orthography.',
     ['inputs', 'configurations'], 'all texts, all target scripts, options, and the four kinds of names',
     'No test detects anything; the mixture of characters in a text is unbounded.',
     [A + 'transliterate.py', A + 'gimeltra.py'], 'auto_detect, detect_preoptions, process_default, auto_script',
     T_MON + 'reference-model oracle over executions on generated mixed texts, and differential execution (autodetect against the named source)',
     'Texts are generated from the Unicode character database with a known majority script; expected names and marker letters are a frozen table. The conversion law is judged on 40 texts per script with hostile text included.')
prop('C13', 'Options can be named and combined freely, and act only on their own scripts',
     'An option name counts in any case, from a list or a tuple, at any place among other options; names that are no option (or are an option of the other kind) are passed over; omitted arguments have their documented defaults and all may be given by position; '
     'options of other scripts leave the result alone; several options are applied in the order given; and what a post-processing option does depends on the target text, not on the script it came from.',
     ['inputs', 'configurations'], 'all lists of options for all pairs of scripts and texts',
     'Tests give one option at a time; lists of options, foreign options and unknown names for 30,000 pairs are never given.',
     [A + 'transliterate.py', A + 'PostProcess.py', A + 'PostOptions.py', A + 'PreProcess.py'], 'process_default (choice of options), convert (order of application), PostProcess and PreProcess functions guarded by the target',
     T_MON + 'differential oracle between executions that must agree, and reference results of 8,800 combinations',
     'All (option, script) pairs outside a frozen table of which options touch which scripts are executed over the whole fixed corpus and must change nothing. Names of internal helper functions are left out of the unknown names. Trusted: spec/effects.json.gz (touched), spec/combos.json.gz.')
prop('C14', 'Each option has its effect',
     'Every pre- and post-processing option does to a text what it is there for (its reference effect on a systematic corpus), changes nothing else in it, does so wherever in a text the words stand, and what is written with an option is read back exactly with the option that undoes it '
     '(alternate letter forms, conjunct styles, the Pali orthographies of Thai and Lao).',
     ['inputs', 'configurations'], 'all texts for each of the 423 options',
     'Two thirds of the options have no test, the others one sentence each.',
     [A + 'PostProcess.py', A + 'PreProcess.py', A + 'transliterate.py', A + 'Convert.py'], 'PostProcess and PreProcess functions',
     T_MON + 'reference-table oracle (1,864 combinations of option and pair of scripts over 2,775 words), differential execution in other surroundings, and round-trip oracle for options with an inverse',
     'All reference effects are judged at both tiers, on some 3.9 million lines; round trips use random words of the script. Trusted: spec/effects.json.gz (audited for options that raise, return constants or lose text), spec/inverse.json, spec/apart.json.')
prop('C16', 'The Semitic scripts are converted letter by letter, to and fro',
     'Every letter and mark of each Semitic script (Arabic and its varieties, Hebrew, Syriac, Aramaic, Phoenician, Avestan-age and South Arabian scripts and their transliteration) is written and read as its table says; '
     'words of letters the script tells apart are read back exactly; going from one script to another equals going by way of the transliteration; final forms and ligatures stand where they belong in texts of several words; '
     'and Indic text gives the same Semitic text from whichever Indic script it comes.',
     ['inputs', 'configurations'], 'all words over the alphabets of all pairs of Semitic scripts, and all Indic sources',
     'Tests hold two passages in a few of the scripts; there are 41 Semitic scripts and some 5,800 pairs with them.',
     [A + 'gimeltra.py', A + 'json/gimeltra_data.json', A + 'transliterate.py', A + 'PreProcess.py', A + 'PostProcess.py'], 'gimeltra tables (ssub, ccmp, fina, liga), _preprocess, _postprocess, _to_latin, _from_latin, and the bridges from and to the Indic scripts in transliterate.convert',
     T_MON + 'reference-table oracle (letters, and digests of 450 words for every pair), round-trip and metamorphic oracles over executions',
     'All letters and all blocks are judged at both tiers (2.5 million words); random words for the laws. 21 pairs whose scripts merge letters differently are left out of the two-script law (spec/semitic.json, hub_not). Trusted: spec/semitic.json. One known finding: a doubled final letter with a mark.')
prop('C20', 'Nativized text follows the conventions of the target script',
     'With nativize=True (the default) the result is the target script\'s own way of writing the word: its reference result on a systematic corpus from every source script; '
     'the same from whatever script the word comes; the same as applying the conventions of the script by their option names and leaving out the diacritics; '
     'and exactly the plain result where the script has no conventions or the word needs none.',
     ['inputs', 'configurations'], 'all words, all source scripts, all target scripts',
     'Tests hold one or two sentences for a script, whose words touch few of the conventions.',
     [A + 'transliterate.py', A + 'PostProcess.py', A + 'PostOptions.py'], 'PostOptions.ApplyScriptDefaults, transliterate.convert with nativize, PostProcess conventions',
     T_MON + 'reference-table oracle (digests of 2,775 words for every target, 450 of every source) and differential execution (source against source, default against named conventions, nativized against plain)',
     'All reference entries are judged at both tiers, and the nativized texts of the rules corpus and of two grid blocks for all pairs (all ten in the thorough tier); sources Hebrew, Urdu and Shahmukhi are outside the source-independence law. Trusted: spec/nativize.json.gz, and the list of conventions by name in props/c20.py for 15 scripts.')
prop('C18', 'Converting a file converts its text and nothing else',
     'Converting a text, HTML or Word file writes one new file, named after the source and target, next to the original (which is unchanged), in which every text of the document is the conversion of that text with the scripts, options and nativization given, '
     'and everything else (tags, attributes, comments, scripts, style sheets, document parts, fields, deleted text, formulas, pictures, their order) is as it was; the extension tells the kind of file; HTML and docx given in memory give the same; other files are refused with a warning and nothing is written.',
     ['inputs', 'configurations'], 'all documents, paths, scripts and options',
     'No test converts a file; documents are trees of unbounded shape.',
     [A + 'transliterate_file.py', A + 'transliterate.py'], 'process, convert_txt, convert_html, convert_docx, xml_file_to_convert, flush_zip_to_file',
     T_MON + 'structural oracle: input and output files read by independent parsers (html.parser, ElementTree, zipfile) and compared node by node, with a monitor of the scratch directory and open files',
     'Random documents with hostile text, nested markup, entities, several docx parts; relative and absolute paths, names with dots and spaces, older outputs in place. Text within one Word run or HTML text node is the unit, as the library defines it; blank text nodes count as one blank and line endings as line feeds.')
prop('C17', 'Equivalent spellings of a word are read alike',
     'Spellings that stand for the same letters are converted to the same text, for every target script: letters and their alternates in the same script or scheme (1,372 pairs over 143 sources), '
     'joiners after letters that form no conjuncts, capitals in schemes that do not tell them apart, and any text in its composed (NFC) or decomposed (NFD) Unicode form.',
     ['inputs', 'configurations'], 'all words and all choices of spelling, all source and target scripts',
     'Tests spell each word in one way; the alternates, normal forms and the places they occur in are many thousand combinations.',
     [A + 'PreProcess.py', A + 'Convert.py', A + 'ConvertFix.py', A + 'transliterate.py'], 'PreProcess.normalize and PreProcess.PreProcess, Fix<Script>(reverse=True), removal of joiners, lower-casing',
     T_MON + 'metamorphic oracle: a word and its respelling are converted in one run each and must give the same text',
     'Random words (quick: 5 for each alternate and target, thorough 10 times 20). The alternates are those the library accepts (spec/equiv.json), found by exchange over all letters and confirmed in fresh words. Unicode normal forms hold for all 182 sources after five repairs.')

prop('C15', 'Text set apart stays as it is, and explicit marks are honoured',
     'In ITRANS, what stands between ## is in the result exactly as it was, and what stands around it is converted as if it stood alone, whatever the target, options or nativization; '
     'Latin words in the text of a Semitic script, or in text going to one, are kept, capitals and letters with dots and macrons included, and the words around them are converted as without them; '
     'in Latin schemes a_i and a_u are read as two vowels, and {} and () put a non-joiner or a joiner between a stop and a consonant.',
     ['inputs', 'configurations'], 'all texts, all places of the marks, all targets and options',
     'Tests hold two lines with ## and a single word with each mark.',
     [A + 'transliterate.py', A + 'Convert.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'ConvertFix.py'], 'transliterate.convert (## split), retainLatin, Convert.convertScript (marks _ {} ())',
     T_MON + 'metamorphic oracle: the parts are converted one by one and their results must stand in the result of the whole',
     'Random and hostile texts with up to six parts, with random options; quick judges 1,500 of 5,000 pairs for Latin words. Left out where a mark has another reading (Mro, Avestan, Sora Sompeng, Warang Citi, and Thai and Sinhala for joiners), and the sources Latn, Type and RomanSemitic for Latin words. Two repairs.')

prop('C19', 'Library of Congress and ISO romanizations follow the partner script',
     'RomanLoC, which has a different table for each of the 22 scripts the Library of Congress has tables for, writes and reads each of them by its own table and rules: its reference result on a systematic word list, the same as the named table with its rules under any options, and, '
     'apart from letters the table does not tell apart, a romanization read back and written again is the same; with every other script it is ISO (ISO 233 with Semitic ones). '
     'The romanizations of Hebrew and Arabic (ISO 259, SBL, ISO 233, DMG) are those of that script, whatever script the text comes from or goes to.',
     ['inputs', 'configurations'], 'all words of all scripts, in both directions, with all options',
     'Tests hold sentences in 21 of these romanizations, in one direction or both; which rules apply depends on the pair of scripts.',
     [A + 'transliterate.py', A + 'GeneralMap.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'ScriptMap/'], 'transliterate.convert (RomanLoC and semiticISO branches), GeneralMap LoC tables, ...RomanLoCSource/Target/Fix functions',
     T_MON + 'reference-table oracle (51 tables and directions over 6,000 words) and metamorphic oracles (alias against named table, by way of the script, written again)',
     'All reference words are judged at both tiers, random words for the laws. Left out of writing again: Shan and Khmer (letters the tables merge), separators, and a vowelless y after ai in Tham. Trusted: spec/loc.json.gz. One known finding: Gurmukhi LLA.')

prop('C21', 'Numbers, dandas, Vedic accents and Om',
     'Numbers, verse numbers between dandas, Vedic accents (udatta, anudatta, double udatta, gomukha anusvara) and Om are written with the signs of the target script, digit by digit (additively in Kharoshthi and Old Persian), '
     'wherever they stand, without changing the letters around them; they are read back as they were; and they come out the same from whatever script or scheme the text is in, nativized or not.',
     ['inputs', 'configurations'], 'all numbers, all accents in all words, all pairs of scripts',
     'Tests hold each digit once per script, and one accented sentence in a few scripts.',
     [A + 'ConvertFix.py', A + 'Convert.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'ScriptMap/'], 'VedicSvaras... functions, ShiftDiacritics, OmMap handling of convertScript, ...Numeral functions, RetainDandasIndic and RetainIndicNumerals',
     T_MON + 'metamorphic oracle: a text is compared with its parts (words, signs of spec/signs.json, an independent model of additive numbers), with itself without accents, read back, and from any other script',
     'Random numbers up to 8 digits and accents on random syllables of random words, 142 scripts, all 19,000 pairs the path law covers. Left out: accents in scripts whose spelling rules look at the neighbouring letter (spec/signs.json hub_not), reading Om where it is written as a common word, reading additive numbers, accents after long vocalic vowels.')

prop('C22', 'Every pair of scripts has its own rules',
     'For every source script, scheme or romanization and every target (185 by 185), with nativization and without, running text of the source (words, clusters, letters and signs peculiar to it, numbers, punctuation, accents, in any order) converts to its reference result: '
     'the rules that hold for one pair only (readings of one source, spellings of one target, phonetic schemes, detours through a third script) are applied to that pair, in every context, and to no other.',
     ['inputs', 'configurations'], 'all texts in all 34,000 pairs, nativized or not',
     'Tests hold some forty sentences, each in one or a few pairs.',
     [A + 'transliterate.py', A + 'Convert.py', A + 'ConvertFix.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'PostOptions.py', A + 'PreOptions.py'], 'the if source == ... and target == ... chains of process_default/convert, convertScript, PostFix..., and the per-pair nativization tables',
     T_MON + 'recorded-trace oracle: 160 lines per source (a third corpus words, a third random inventory words, numbers and accents, a third random sequences of its own letters) converted to every target, digests compared with spec/grid.json.gz',
     'Blocks of 20 lines, 10 for each pair (two of them of words that reach rules), 5 on quick; and the plain texts of the rules corpus. The reference was recorded from this tree after the fixes listed in known_findings.json; what it holds that is itself wrong is listed there or in DESIGN.md. A block of text tells that a pair changed, not which line. Kana: one block only.')

prop('C23', 'Kana are read and written as they sound',
     'Hiragana and Katakana text converts to every target as the ISO 15919 form of its sounds does (moras, small tsu, moraic nasal, long vowels, hiatus), alike in both syllabaries, line by line, with text in other scripts kept; '
     'text of every script is written in kana alike, in Katakana as in Hiragana apart from the long vowel mark, line by line; every syllable (consonant with vowel, two consonants) is written with its recorded kana and read back as recorded.',
     ['inputs', 'configurations'], 'all words of moras, all source and target scripts, nativized or not',
     'No test converts to or from kana.',
     [A + 'PreProcess.py', A + 'PostProcess.py', A + 'transliterate.py', A + 'ScriptMap/NonIndic/kana2roman.py'], 'JapanesePreProcess, JapanesePostProcess, tokushuon, kana2roman, the Japanese branches of transliterate.convert',
     T_MON + 'independent model of the sounds of kana (vlib/kana.py), metamorphic oracle (Katakana against Hiragana, source against source, lines against words) and reference table (3,469 syllables, both syllabaries, both conventions)',
     'The whole table is judged at both tiers. Outside the reading model: small tsu before m, v, z, w, ch and j; the moraic nasal before vowels and n; the old kana wi and we; a long mark after an already long vowel. Kanji are read by the pykakasi library and not judged. Trusted: spec/kana.json.gz.')
