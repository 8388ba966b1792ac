"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "py/latkerlo_jvotci/"
J, K, T, O, D, R = (PY + x + ".py" for x in ("jvozba", "katna", "tarmi", "tools", "data", "rafsi"))
TESTS = "The tests compare a few hundred fixed words; "

JS, TS, RS = "js/docs/", "js/src/", "rs/src/"
TECH = "symbolic execution of the real Python source with Z3 (every branch and assertion decided over all inputs of the path)"
TECH_JS = "symbolic execution of the real JavaScript and Python sources side by side with Z3 (equality of the results decided over all inputs of the path)"
TECH_PAGE = "symbolic execution of the real page's and library's JavaScript with Z3 (every branch and assertion decided over all inputs of the path)"
TECH_RS = "symbolic execution of the real Rust crate's MIR and the real Python source side by side with Z3 (equality of the results decided over all inputs of the path)"
TECH_RS1 = "symbolic execution of the real Rust crate's MIR with Z3 (every branch and assertion decided over all inputs of the path)"
TECH_D = "Z3 over a symbolic word or rafsi and the tables the executed sources build"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, claimed=True, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, claimed=claimed, observe=observe,
                  tech=TECH_JS if pid in ("P22", "P23") else TECH_PAGE if pid == "P29" else TECH_D if pid == "P24" else
                  TECH_RS if pid in ("P25", "P26", "P30") else TECH_RS1 if pid == "P27" else None))


ALLSET = "all 72 combinations of settings (y-hyphens, experimental rafsi shapes, consonant rule, glides, mz)"

prop("P01", "A generated lujvo decomposes into its tanru",
     "Every word that lujvo generation returns is accepted by word analysis under the same settings, as a lujvo (or, "
     "when a cmevla was asked for, as a lujvo cmevla). Its decomposition has exactly one rafsi per component, in order, "
     "and each rafsi is one its component may appear as: the rafsi itself, a dictionary short rafsi, the gismu, or the gismu "
     "without its final vowel.",
     ["inputs", "configurations"], "every tanru, brivla and cmevla mode, " + ALLSET,
     TESTS + "the generator and the analyser are separate code, and agreement must hold for every letter combination at "
     "every rafsi boundary under every setting.",
     [J, K, O], [("combine decides hyphens at each boundary", J + ": combine"),
                 ("analyse_brivla/jvokaha read them back", O + ": analyse_brivla; katna.py: jvokaha, jvokaha_2"),
                 ("tosmabru and slinku'i tests", O + ": analyse_brivla, is_slinkuhi; jvozba.py: combine")],
     "all tanru of the listed shapes")
prop("P02", "Analytics describe the generated word",
     "The analytics form of generation returns the same word, or fails with the same error, as the plain form. Its index "
     "pairs delimit, in order, one rafsi of each component; between consecutive rafsi lies nothing or exactly one hyphen, "
     "and the rafsi reach from the start to the end of the word.",
     ["inputs", "configurations"], "every tanru, both modes, " + ALLSET,
     TESTS + "index pairs are shifted incrementally while hyphens are inserted, so every boundary combination matters.",
     [J], [("index bookkeeping in combine", J + ": combine"), ("get_lujvo wraps get_lujvo_with_analytics", J + ": get_lujvo")],
     "all tanru of the listed shapes")
prop("P03", "Scores follow the published formula everywhere",
     "The score of a generated lujvo equals the published lujvo-scoring formula (length, apostrophes, hyphens, rafsi shapes, "
     "vowels, and the two-component tiebreak) computed on the word and its rafsi. Scoring the finished word from its spelling "
     "alone gives the same number.",
     ["inputs", "configurations"], "every tanru, both modes, " + ALLSET,
     TESTS + "the score is accumulated incrementally in one place and recomputed from pieces in another; they must agree on "
     "every word.",
     [J, K, T], [("incremental score", J + ": combine, score, tiebreak"), ("score from spelling", K + ": score_lujvo"),
                 ("shape weights", T + ": rafsi_tarmi, tarmi_ignoring_hyphen")],
     "all tanru of the listed shapes; the oracle is an independent formula in the harness")
prop("P04", "The generated lujvo is the best available",
     "No other way of joining the same rafsi with hyphens is accepted as the same kind of word and scores lower, and if any is "
     "accepted then generation succeeds. When components have several rafsi, generation succeeds exactly when some choice of "
     "rafsi gives a word, and the result scores no worse than any choice.",
     ["inputs", "configurations"], "every tanru, every alternative joining and every choice of rafsi, " + ALLSET,
     TESTS + "optimality compares a result with every alternative, which no list of expected words does.",
     [J, K], [("dynamic programme over rafsi choices and final letters", J + ": get_lujvo_from_list, update_current_best"),
              ("least hyphen needed", J + ": combine")],
     "hyphenations of 2-3 rafsi; rafsi choices of 2 gismu")
prop("P05", "Generation fails only with its documented errors",
     "For any list of strings as components, lujvo generation terminates with either a word or one of its documented errors "
     "(non-Lojban character, invalid cluster, invalid zi'evla, no lujvo found). A word is only returned for two or more "
     "components, consists of Lojban letters, and ends in a consonant exactly when a cmevla was asked for.",
     ["inputs", "configurations"], "every list of strings, both modes, " + ALLSET,
     TESTS + "robustness is about all malformed inputs, which no test samples.",
     [J, K, O, T], [("input screening", J + ": process_tanru"), ("component lookup", J + ": get_rafsi_list_list"),
                    ("documented errors", PY + "exceptions.py")],
     "0-3 components; short arbitrary strings as components")
prop("P06", "Analysis of any string ends with a documented outcome",
     "For any string, word analysis terminates and either returns one of the five word types with a nonempty list of pieces or "
     "raises the not-a-brivla error. The yes/no brivla question always returns a bool, and decomposition into components and "
     "scoring raise only their documented errors.",
     ["inputs", "configurations"], "every string over all characters, " + ALLSET,
     TESTS + "crashes and hangs hide in strings nobody lists: odd characters, stray apostrophes, hyphens at the ends.",
     [K, O, T], [("error funnel", O + ": analyse_brivla; katna.py: get_veljvo, score_lujvo"), ("normalisation", O + ": normalise"),
                 ("decomposition loops", K + ": jvokaha, jvokaha_2")],
     "arbitrary characters to length 3 (4), Lojban letters to 6 (7), templates beyond")
prop("P07", "Decomposition is lossless and well-formed",
     "The pieces of an accepted word, concatenated, spell exactly the word. A gismu or zi'evla is a single piece; a lujvo or "
     "lujvo cmevla has at least two rafsi, starts and ends with a rafsi, and never has two hyphens in a row. A word is a cmevla "
     "exactly when it ends in a consonant.",
     ["inputs", "configurations"], "every string, " + ALLSET,
     TESTS + "the decomposer slices the word in many branches, each of which could drop, repeat or misplace letters.",
     [K], [("splitting", K + ": jvokaha, jvokaha_2"), ("type decision", O + ": analyse_brivla")],
     "all Lojban strings to length 7 (8), templates beyond")
prop("P08", "A brivla never falls apart into cmavo and a brivla",
     "Under settings without experimental rafsi shapes, no accepted brivla can be split into one or more cmavo followed by an "
     "accepted consonant-initial brivla under the same settings. So speech segments uniquely.",
     ["inputs", "configurations"], "every string and every split, all settings without experimental rafsi shapes",
     TESTS + "self-segregation is a statement about pairs of words; the tosmabru and slinku'i tests that enforce it have "
     "corner cases in every rafsi combination.",
     [K, O], [("tosmabru test", O + ": analyse_brivla"), ("slinku'i test", O + ": is_slinkuhi"),
              ("zi'evla test", O + ": check_zihevla_or_rafsi")],
     "all Lojban strings to length 7 (8), templates beyond; consonant-initial remainders")
prop("P09", "Accepted words obey Lojban phonotactics",
     "Every accepted word has only permissible consonant pairs and triples, starts a consonant-initial cluster with a permissible "
     "initial pair, uses apostrophes only between vowels, never doubles y, has at least two syllables, and contains a consonant "
     "cluster wherever its type and the consonant rule require one. The pair mz occurs only when allowed, and y never occurs "
     "outside lujvo.",
     ["inputs", "configurations"], "every string, " + ALLSET,
     TESTS + "phonotactics are enforced piecemeal by regexes and cluster checks in several functions; a gap shows only on a "
     "specific letter combination.",
     [O, K, T, D], [("cluster checks", O + ": analyse_brivla, check_zihevla_or_rafsi; tarmi.py: is_zihevla_initial_cluster, is_zihevla_middle_cluster"),
                    ("cluster tables", D + ": VALID, MZ_VALID, INITIAL, BANNED_TRIPLES")],
     "all Lojban strings to length 7 (8), templates beyond; cluster tables restated in engine/spec.py")
prop("P10", "Gismu recognition is exact",
     "A word is classified as a gismu exactly when it is CVC/CV or CCVCV with a permissible medial pair or permissible initial "
     "pair respectively (mz only when allowed). Every gismu is a brivla and is its own only piece.",
     ["inputs", "configurations"], "every string, " + ALLSET,
     TESTS + "the dictionary test shows that 1400 gismu are accepted, not that every non-gismu is rejected.",
     [T, O, K], [("gismu test", T + ": is_gismu, is_gismu_shape"), ("type decision", O + ": analyse_brivla")],
     "all Lojban strings to length 6 (7)")
prop("P11", "Spelling variants are the same word",
     "Letter case, h for the apostrophe, commas and a leading period never change whether a word is accepted, its type, its "
     "pieces, its components or its score.",
     ["inputs", "configurations"], "every string and every such respelling, " + ALLSET,
     TESTS + "every public function must normalise first; one that does not shows only for a variant spelling of the right "
     "word.",
     [O, K, J], [("normalisation", O + ": normalise"), ("its callers", O + ": analyse_brivla; katna.py: get_veljvo, score_lujvo")],
     "strings to length 6 (7) with variants at every letter, one comma")
prop("P12", "The mz option changes nothing but mz",
     "Without the mz option no accepted or generated word contains mz. Turning it on keeps every accepted word with its type and "
     "pieces, adds only words in which m meets z, never makes the best lujvo of a tanru worse, and leaves it unchanged unless the new "
     "one contains mz.",
     ["inputs", "configurations"], "every string and tanru, all other settings",
     TESTS + "the option is threaded through some twenty calls by hand; each forgotten one breaks a particular word.",
     [K, J, O, T], [("allow_mz parameters", K + ", " + J + ", " + O + ", " + T)],
     "all Lojban strings to length 6 (7), templates; tanru of 2-3 rafsi")
prop("P13", "Relaxed settings only add words",
     "A word accepted under a stricter setting stays accepted, with the same type and pieces, when the consonant rule is relaxed "
     "(cluster, two consonants, one consonant), when y-hyphens are allowed beside standard ones, or when experimental rafsi shapes "
     "are turned on. Without experimental shapes the glides setting decides nothing.",
     ["inputs", "configurations"], "every string, every pair of settings that differ by one relaxation",
     TESTS + "no test compares settings with each other.",
     [K, O, T], [("settings", O + ": analyse_brivla; options of the public functions"), ("their use", O + ": analyse_brivla; katna.py: jvokaha")],
     "all Lojban strings to length 5 (7), templates beyond")
prop("P14", "Public answers about a word agree",
     "A word is a brivla exactly when analysis accepts it with a non-cmevla type. Components and a score exist exactly for lujvo "
     "and lujvo cmevla; for other accepted words they fail with the decomposition error, for rejected ones with the not-a-brivla "
     "error; and there is one component per rafsi of the analysis.",
     ["inputs", "configurations"], "every string, " + ALLSET,
     TESTS + "the entry points repeat parts of each other's work and can drift apart on any input.",
     [K, J], [("entry points", O + ": is_brivla, analyse_brivla"), ("components and score", K + ": get_veljvo, score_lujvo")],
     "all Lojban strings to length 6 (7), templates beyond")
prop("P15", "Components name the right words and rebuild the lujvo",
     "Each component reported for a lujvo is the dictionary word that owns the rafsi, or the rafsi itself marked with dashes when "
     "no word owns it. Generating from the reported components under the same settings succeeds, scores no worse than the original "
     "word, and has the same components again.",
     ["inputs", "configurations", "programs"], "every lujvo, every dictionary (stubbed by a symbolic one), " + ALLSET,
     TESTS + "it composes decomposition, dictionary search, formatting and generation over all words and dictionaries.",
     [K, J], [("rafsi search", K + ": search_selrafsi_from_rafsi"), ("formatting", K + ": selrafsi_list_from_rafsi_list")],
     "2-3 rafsi lujvo templates; dictionaries of up to 2 gismu with symbolic rafsi")
prop("P16", "Results depend on the arguments alone",
     "Asking the same question again, after any other calls, or after the caller has modified earlier results, gives the same "
     "answer as in a fresh process. No call modifies its arguments or the rafsi dictionary.",
     ["inputs", "histories", "configurations"], "every history of calls (bounded), every argument",
     TESTS + "each test runs one call from one state; aliasing, caching and shared-table mutation need histories.",
     [J, K, R], [("list building", J + ": get_rafsi_list_list, combine"), ("shared table", R + ": RAFSI_LIST")],
     "histories of up to five calls on two words")
prop("P17", "A tanru means the same however it is written",
     "A tanru given as a blank-separated string or as a list, with extra blanks, in either case, with h for the apostrophe, with "
     "a leading period or with commas, gives the same word, score and indices, or the same error.",
     ["inputs", "configurations"], "every tanru and every such respelling, both modes, " + ALLSET,
     TESTS + "variant spellings are not tested at all.",
     [J, O], [("splitting and normalising", J + ": process_tanru")],
     "2-3 component tanru of the listed shapes")
prop("P18", "Hyphens appear only where the hyphen rules put them",
     "In an accepted lujvo, r or n as a hyphen follows only a CVV or CV'V rafsi before a consonant, n exactly before r, and never "
     "when y is forced. A hyphen y stands after a consonant or an on-glide, an apostrophe before it stands exactly after a vowel, and "
     "an apostrophe after it only before a vowel.",
     ["inputs", "configurations"], "every string, " + ALLSET,
     TESTS + "which hyphen is legal depends on both neighbours and on the setting; tests hold a handful of combinations.",
     [K, J], [("hyphen branches", K + ": jvokaha, jvokaha_2"), ("hyphen choice", J + ": combine")],
     "all Lojban strings to length 7 (8), templates beyond")

prop("P19", "Lujvo well-formedness is exact",
     "A string of two or more standard-shape rafsi joined by hyphens is accepted as a lujvo (or lujvo cmevla) exactly when it follows the "
     "published rules: permissible pairs and triples at every joint, y exactly where a joint or the tosmabru test needs it, an r or n "
     "hyphen (or 'y when y is forced) exactly where an initial CVV or CV'V rafsi needs it, nothing missing and nothing superfluous. "
     "Words that fail the slinku'i test are rejected.",
     ["inputs", "configurations"], "every word of standard-shape rafsi and hyphens, all y-hyphen, consonant and mz settings",
     TESTS + "both accepting a malformed lujvo and refusing a well-formed one show only on particular letters at particular joints.",
     [K, O, T], [("splitting into rafsi", K + ": jvokaha, jvokaha_2"), ("cluster, tosmabru and consonant rules", O + ": analyse_brivla"),
                 ("shape tests", T + ": is_valid_rafsi, is_gismu")],
     "2-3 rafsi of every shape and hyphen, chains of 4 CVC")
prop("P20", "Zi'evla recognition is exact",
     "A string without y that is no gismu or lujvo is accepted as a zi'evla exactly when it ends in a vowel, has two or more syllables, "
     "contains a consonant cluster that comes early enough and consists of permissible pairs and triples, starts permissibly, has only "
     "splittable vowel sequences and well-placed apostrophes, does not fall apart into cmavo and a brivla, and passes the slinku'i test.",
     ["inputs", "configurations"], "every string, all y-hyphen, mz and experimental-rafsi settings, consonant rule at its default",
     TESTS + "zi'evla are recognised by what is left over after every other test, so each wrong refusal or acceptance needs its own letters.",
     [O, T, D], [("zi'evla test", O + ": check_zihevla_or_rafsi, analyse_brivla"),
                 ("clusters and vowels", T + ": is_zihevla_initial_cluster, is_zihevla_middle_cluster, split_vowel_cluster"),
                 ("slinku'i test", O + ": is_slinkuhi")],
     "all strings of consonants, vowels and apostrophes to length 7 (8), templates beyond")

prop("P21", "Rafsi indices delimit the rafsi",
     "For every list of pieces of a word, the index function returns one pair of indices for each piece that is no hyphen, in order, "
     "and each pair delimits exactly that piece in the joined word. For an analysed word the pairs run from its start to its end, and "
     "for a generated lujvo they equal the indices that generation returned. The list passed in is not modified.",
     ["inputs", "configurations"], "every list of pieces, every accepted word, every tanru, " + ALLSET,
     TESTS + "indices of generation and of decomposition are computed by separate code and never compared.",
     [K, J, O], [("indices from pieces", K + ": get_rafsi_indices"), ("indices while generating", J + ": combine")],
     "piece lists of up to 4 (5) pieces, word and tanru templates")
prop("P22", "JavaScript and Python analyse words alike",
     "For every string and settings, the JavaScript analysis functions (js/docs as published, and js/src compiled) give what the "
     "Python ones give: the same type and pieces, verdict, components, score and rafsi indices, or an error of the same name.",
     ["inputs", "configurations"], "every string, every dictionary (stubbed by a symbolic one), " + ALLSET,
     TESTS + "the JavaScript is a hand-made copy of the Python and can differ on any input.",
     [JS + "tools.js", JS + "katna.js", JS + "tarmi.js", TS + "tools.ts", TS + "katna.ts", TS + "tarmi.ts", K, O, T],
     [("analysis", JS + "tools.js: analyseBrivla, isSlinkuhi, checkZihevlaOrRafsi"), ("decomposition", JS + "katna.js: jvokaha, getVeljvo, scoreLujvo"),
      ("letters", JS + "tarmi.js")],
     "all Lojban strings to length 6 (7), variant spellings to 4 (5), arbitrary characters to 2 (3), word templates; JavaScript "
     "translated from its current source, compared with node", observe=["getVeljvo, analyseBrivla, isBrivla, scoreLujvo, getRafsiIndices in node"])
prop("P23", "JavaScript and Python generate the same lujvo",
     "For every tanru and settings, the JavaScript generator (js/docs as published, and js/src compiled) returns the same word, score and "
     "indices as the Python one, or an error of the same name, from a list or from text.",
     ["inputs", "configurations"], "every tanru, every dictionary (stubbed by a symbolic one), both modes, " + ALLSET,
     TESTS + "the JavaScript is a hand-made copy of the Python and can differ on any input.",
     [JS + "jvozba.js", JS + "tarmi.js", TS + "jvozba.ts", TS + "tarmi.ts", J, T],
     [("generation", JS + "jvozba.js: combine, getLujvoFromList, getRafsiListList, processTanru"), ("score", JS + "jvozba.js: score, tiebreak")],
     "2-3 component tanru of the listed shapes, components of arbitrary letters; JavaScript translated from its current source, compared "
     "with node", observe=["getLujvo and getLujvoWithAnalytics in node"])
prop("P24", "One dictionary in all languages, one word for a rafsi",
     "The rafsi dictionaries of the Python, JavaScript (docs and src) and Rust packages hold the same words with the same short rafsi. "
     "Each short rafsi has the shape CVC, CCV, CVV or CV'V and belongs to one word only.",
     ["inputs"], "every word and rafsi of any of the dictionaries",
     "No test compares the dictionaries or looks at more than the few hundred entries its words use.",
     [R, JS + "rafsi.js", TS + "rafsi.ts", "rs/src/rafsi.rs"], [("tables", R + ": RAFSI_LIST; rafsi.js: RAFSI_LIST; rafsi.rs: RAFSI")],
     "all entries", observe=["RAFSI_LIST in each language"])

prop("P25", "Rust and Python analyse words alike",
     "For every string and settings, the Rust analysis functions give what the Python ones give: the same type and pieces, verdict, "
     "components, score and rafsi indices, or an error of the same name; they never panic. (Rust also drops final and repeated initial "
     "periods of a word; such words are excluded.)",
     ["inputs", "configurations"], "every string, every dictionary (stubbed by a symbolic one), " + ALLSET,
     TESTS + "the Rust is a separate implementation and can differ, or panic, on any input.",
     [RS + "tools.rs", RS + "katna.rs", RS + "tarmi.rs", RS + "data.rs", K, O, T],
     [("analysis", RS + "tools.rs: analyze_brivla, is_slinkuhi, check_zihevla_or_rafsi"), ("decomposition", RS + "katna.rs: jvokaha, get_veljvo, score_lujvo"),
      ("letters", RS + "tarmi.rs")],
     "all Lojban strings to length 6 (7), variant spellings to 4 (5), arbitrary characters to 2 (3), word templates; Rust MIR "
     "dumped from the current source, compared with the compiled crate",
     observe=["analyze_brivla, is_brivla, get_veljvo, score_lujvo, get_rafsi_indices of the crate"])
prop("P26", "Rust and Python generate the same lujvo",
     "For every tanru and settings, the Rust generator returns the same word, score and indices as the Python one, or an error of the same "
     "name (for fewer than two components: FakeTypeError in Rust, as it documents, NoLujvoFoundError in Python), from a list of normalised words or from "
     "text; it never panics.",
     ["inputs", "configurations"], "every tanru, every dictionary (stubbed by a symbolic one), both modes, " + ALLSET,
     TESTS + "the Rust is a separate implementation and can differ, or panic, on any input.",
     [RS + "jvozba.rs", RS + "tarmi.rs", RS + "tools.rs", J, T],
     [("generation", RS + "jvozba.rs: combine, get_lujvo_from_list, get_rafsi_list_list, process_tanru"), ("score", RS + "jvozba.rs: score, tiebreak")],
     "2-3 component tanru of the listed shapes, components of arbitrary letters; Rust MIR dumped from the current source, compared "
     "with the compiled crate", observe=["get_lujvo, get_lujvo_with_analytics and get_lujvo_from_list of the crate"])
prop("P27", "Rust settings strings say what they mean",
     "Every Settings value of the Rust crate, shown as a string, parses back to itself. A string parses exactly when it consists of the flags "
     "cSAFC21rgz with none of c, r, g, z twice and at most one each of SAF and C21, and then sets exactly the fields it names. Applying "
     "flags toggles the named fields one after another (S and C reset theirs), or changes nothing when a character is no flag. "
     "SETTINGS_ITERATOR lists all 144 settings once each.",
     ["inputs", "configurations"], "every settings value, every flag string",
     "The Rust tests use the settings strings as a tool and never compare what they mean.",
     [RS + "tarmi.rs"], [("showing and parsing", RS + "tarmi.rs: Display and FromStr of Settings"), ("flags", RS + "tarmi.rs: Settings::apply_flags"),
                         ("list", RS + "tarmi.rs: SETTINGS_ITERATOR")],
     "flag strings to length 5 (7), applied to any settings to length 4 (6)", observe=["to_string, parse, apply_flags of Settings; SETTINGS_ITERATOR"])

prop("P28", "Interactive prompts honour their commands",
     "Run as programs, jvozba.py and katna.py read lines until an empty one. A line starting with / changes exactly the settings its words "
     "name, in any case, the last one winning, and ignores other words; it prints nothing. Any other line is processed under exactly the "
     "settings in force and the result, or the documented error, is printed; after an error the session goes on. The prompt shows the initials "
     "of the settings in force.",
     ["inputs", "histories"], "every command line and every input line, after any settings",
     "No test runs the modules as programs.",
     [J, K], [("prompt loops", J + ": __main__; " + K + ": __main__")],
     "command lines of up to 3 words of arbitrary letters; other lines of up to 3 (4) arbitrary characters", observe=["the text the programs print"])

prop("P29", "The web page shows what the library gives",
     "Whatever texts are typed and buttons clicked, in any order: once the page has settled, its table shows, for each combination of the "
     "settings (in easy mode: the standard one alone), exactly one cell, and in it what the page's library returns for the current text, brivla/cmevla "
     "choice and those settings: type, pieces and words for one word, the lujvo for several, or the refusal. A setting is left out of "
     "the table exactly where it makes no difference. The buttons show the mode, and no error reaches the page.",
     ["inputs", "histories", "configurations"], "every history of events, every text, every dependence of the results on the settings",
     "No test runs the page.",
     ["demo_page.js", "index.html", JS + "tarmi.js"], [("display", "demo_page.js: go"), ("events", "demo_page.js: listeners; index.html: ids and scripts"),
      ("settings", JS + "tarmi.js: SETTINGS, makeSettingsIterator")],
     "histories of up to 3 (4) events; lujvo depending on any subset of the settings and differing at one (2) arbitrary combinations; words "
     "of up to 3 letters and templates", observe=["the page's table and buttons in a stand-in for a browser"])

prop("P30", "The Rust program does what its flags and input say",
     "Given arguments, the Rust program takes a first one starting with - as flags (any h: help; malformed: a message and exit code 1), refuses "
     "others starting with / (exit code 1), and processes the rest joined by spaces under exactly the settings of the flags. One word: its "
     "rafsi or source word, type, pieces, score, source words and the best lujvo with its score if that differs; several words: the lujvo; "
     "otherwise the error and exit code 1. Without input it processes the lines it reads the same way and goes on after errors; a line starting with / quits (any q), "
     "shows help (any h), or toggles exactly the settings of its flags, or none if a flag is unknown (/ alone returns to the defaults); the prompt names the settings in "
     "force; the end of input ends it. It never panics or hangs.",
     ["inputs", "histories", "configurations"], "every flag argument, every input, every command line",
     "No test runs the program.",
     [RS + "main.rs", RS + "tarmi.rs", RS + "katna.rs"], [("arguments and prompt", RS + "main.rs: main"), ("flags", RS + "tarmi.rs: Settings")],
     "flag arguments and commands of up to 3 (4) characters; inputs of up to 5 (6) Lojban letters, 2 (4) arbitrary characters and templates",
     observe=["exit code and printed text of the program"])

NA = []
exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"] or ["the package's public functions"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks = []
for p in P:
    if not p["claimed"]:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt check.py " + p["id"],
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
        "technique": p["tech"] or TECH,
        "level": "model_checking",
        "level_note": "Within the bounds, no input violates the property: " + p["note"] + ". Nothing is claimed outside the "
                      "bounds listed in the evidence file. Trusts Z3's unsat answers and the engine's encodings of string, list, "
                      "dict and regex operations; counterexamples are replayed on the imported package, and solver models "
                      "of explored paths are compared with it on every run.",
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": NA}, f, indent=1)
    f.write("\n")
