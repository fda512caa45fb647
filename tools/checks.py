"""The checks: which models, generators and judges decide which property."""

CHECKS = {
    "C02": {"min_events": 100, "require": ["regexps", "screened"]},
    "C03": {"min_events": 100, "require": ["queries", "dense_queries", "crowds"],
            "models": [{"module": "QueryImpl", "quick": "QueryImpl_quick.cfg", "thorough": "QueryImpl_thorough.cfg", "min": 10000}]},
    "C04": {"min_events": 100, "require": ["files", "full_enumerations", "crowds"]},
    "C05": {"min_events": 100, "require": ["natural_spills", "spilled_builds", "generated_schedules", "crowds"],
            "models": [{"module": "ExtSort", "quick": "ExtSort_quick.cfg", "thorough": "ExtSort_thorough.cfg", "min": 1000}],
            "gen": [{"module": "ExtSort", "cfg": "ExtSort_gen.cfg", "simulate": True, "num": 300, "num_thorough": 3000, "depth": 200, "min": 100}]},
    "C06": {"min_events": 100, "require": ["merges", "generated_merges", "crowds"],
            "models": [{"module": "MC_MergeImpl", "quick": "MergeImpl_quick.cfg", "thorough": "MergeImpl_thorough.cfg", "min": 10000}],
            "gen": [{"module": "MC_MergeImpl", "cfg": "MergeImpl_gen.cfg", "simulate": True, "num": 160, "num_thorough": 4000, "depth": 2, "min": 100}]},
    "C15": {"min_events": 100, "require": ["comparisons", "name_probes", "crowds"],
            "models": [{"module": "PathOrder", "quick": "PathOrder_quick.cfg", "thorough": "PathOrder_thorough.cfg", "min": 10000}]},
    "C20": {"min_events": 100, "require": ["v1_indexes", "v1_merges", "far_lists", "crowds"]},
    "C09": {"min_events": 100, "require": ["cuts", "csearch_on_cut", "checked", "alterations_bad", "many_files_altered"],
            "models": [{"module": "GammaModel", "quick": "GammaModel_quick.cfg", "thorough": "GammaModel_thorough.cfg", "min": 10000}]},
    "C21": {"min_events": 100, "require": ["encoded_by_driver", "encoded_by_specification", "written", "written_merges", "sparse_files"],
            "models": [{"module": "GammaModel", "quick": "GammaModel_quick.cfg", "thorough": "GammaModel_thorough.cfg", "min": 10000}],
            "gen": [{"module": "FormatGen", "cfg": "FormatGen_gen.cfg", "simulate": True, "num": 80, "num_thorough": 1500, "depth": 12, "min": 40}]},
    "C11": {"min_events": 100, "require": ["regexps", "screened", "big_programs"]},
    "C30": {"min_events": 100, "require": ["searches", "searches_with_matches", "with_context", "fat_files"]},
    "C31": {"min_events": 100, "require": ["sessions", "generated_sessions", "commands_that_fail", "home_indexes", "relative_indexes", "webs", "spoiled_bad", "spoiled_cut"],
            "models": [{"module": "CommandsModel", "quick": "CommandsModel_quick.cfg", "thorough": "CommandsModel_thorough.cfg", "min": 500}],
            "gen": [{"module": "CommandsModel", "cfg": "CommandsModel_gen.cfg", "simulate": True, "num": 120, "num_thorough": 1500, "depth": 140, "min": 90}]},
    "C29": {"min_events": 100, "require": ["cuts", "searches", "opened", "not_to_open"],
            "models": [{"module": "NarrowModel", "quick": "NarrowModel_quick.cfg", "thorough": "NarrowModel_thorough.cfg", "min": 100000}]},
    "C10": {"min_events": 1000, "require": ["pairs", "gigabyte_files", "near_trigram_limit", "failing_readers", "unreadable"],
            "models": [{"module": "ScanModel", "quick": "ScanModel_quick.cfg", "thorough": "ScanModel_thorough.cfg", "min": 10000}]},
    "C12": {"min_events": 200, "require": ["generated_texts", "big_texts", "cgrep_runs", "csearch_runs", "searches_with_matches"],
            "models": [{"module": "GrepImpl", "quick": "GrepImpl_quick.cfg", "thorough": "GrepImpl_thorough.cfg", "min": 10000}],
            "gen": [{"module": "GrepImpl", "cfg": "GrepImpl_gen0.cfg", "simulate": True, "num": 200, "num_thorough": 3000, "depth": 80, "min": 60}]},
    "C13": {"min_events": 200, "require": ["generated_texts", "big_texts", "cgrep_runs", "csearch_runs", "searches_with_matches"],
            "models": [{"module": "GrepImpl", "quick": "GrepImpl_quick.cfg", "thorough": "GrepImpl_thorough.cfg", "min": 10000}],
            "gen": [{"module": "GrepImpl", "cfg": "GrepImpl_gen.cfg", "simulate": True, "num": 2400, "num_thorough": 30000, "depth": 80, "min": 60}]},
    "C14": {"min_events": 200, "require": ["big_texts", "cgrep_runs", "csearch_runs", "searches_with_matches", "limited", "empty_pattern_lists"]},
    "C19": {"min_events": 200, "require": ["csearch_runs", "web_searches_with_matches", "files_chosen", "searches_with_matches"]},
    "C07": {"min_events": 100, "require": ["deep_trees", "crowded_histories", "histories", "generated_histories", "runs"],
            "models": [{"module": "MC_CodeSearch", "quick": "CodeSearch_quick.cfg", "thorough": "CodeSearch_thorough.cfg", "min": 1000}],
            "gen": [{"module": "MC_CodeSearch", "cfg": "CodeSearch_gen.cfg", "simulate": True, "num": 80, "num_thorough": 1500, "depth": 130, "min": 60}]},
    "C08": {"min_events": 40, "require": ["interrupted_runs", "generated_histories", "large_sweeps", "fault_kill", "fault_torn", "fault_EIO", "fault_ENOSPC", "stage_rename"],
            "models": [{"module": "CindexCrash", "quick": "CindexCrash_quick.cfg", "thorough": "CindexCrash_thorough.cfg", "min": 10000}],
            "gen": [{"module": "CindexCrash", "cfg": "CindexCrash_gen.cfg", "simulate": True, "num": 60, "num_thorough": 1500, "depth": 100, "min": 40}]},
    "C18": {"min_events": 60, "require": ["deep_trees", "vast_archives", "crowded_histories", "histories", "archive_entries", "searches_with_matches"],
            "models": [{"module": "MC_CodeSearch", "quick": "CodeSearch_quick.cfg", "thorough": "CodeSearch_thorough.cfg", "min": 1000}],
            "gen": [{"module": "MC_CodeSearch", "cfg": "CodeSearch_gen.cfg", "simulate": True, "num": 40, "num_thorough": 1000, "depth": 130, "min": 30}]},
    "C01": {"min_events": 60, "require": ["deep_trees", "histories", "large_searches", "searches_with_matches"],
            "models": [{"module": "MC_CodeSearch", "quick": "CodeSearch_quick.cfg", "thorough": "CodeSearch_thorough.cfg", "min": 1000}]},
    "C16": {"min_events": 100, "require": ["search", "bad_query", "bad_filter", "file", "directory"],
            "models": [{"module": "HtmlModel", "quick": "HtmlModel_quick.cfg", "thorough": "HtmlModel_thorough.cfg", "min": 1000}]},
    "C17": {"min_events": 200, "require": ["files_text", "files_binary", "large_files", "huge_files", "directories", "entries"],
            "models": [{"module": "HtmlModel", "quick": "HtmlModel_quick.cfg", "thorough": "HtmlModel_thorough.cfg", "min": 1000}]},
    "C25": {"min_events": 100, "require": ["web_searches_with_matches", "bad_searches", "limit_searches", "fat_files"]},
    "C24": {"min_events": 60, "require": ["generated_schedules", "held_requests", "stress_runs", "requests_during_updates", "limit_stress", "searches_with_matches"],
            "models": [{"module": "Concurrent", "quick": "Concurrent_quick.cfg", "thorough": "Concurrent_thorough.cfg", "min": 10000}],
            "gen": [{"module": "Concurrent", "cfg": "Concurrent_gen.cfg", "simulate": True, "num": 80, "num_thorough": 1200, "depth": 100, "min": 40}]},
    "C26": {"min_events": 60, "require": ["deep_trees", "crowded_histories", "generated_histories", "stale_searches_with_matches", "files_gone", "files_changed"],
            "models": [{"module": "MC_CodeSearch", "quick": "CodeSearch_quick.cfg", "thorough": "CodeSearch_thorough.cfg", "min": 1000}],
            "gen": [{"module": "MC_CodeSearch", "cfg": "CodeSearch_gen.cfg", "simulate": True, "num": 80, "num_thorough": 1500, "depth": 130, "min": 60}]},
    "C27": {"min_events": 60, "require": ["requests", "updates", "clients_left", "asked_hit", "asked_odd", "asked_badquery", "repeated_hit", "repeated_badfilter", "repeated_file", "repeated_dir", "repeated_odd"],
            "models": [{"module": "WebServer", "quick": "WebServer_quick.cfg", "thorough": "WebServer_thorough.cfg", "min": 10000}],
            "gen": [{"module": "WebServer", "cfg": "WebServer_gen.cfg", "simulate": True, "num": 24, "num_thorough": 200, "depth": 400, "min": 20}]},
    "C28": {"min_events": 60, "require": ["generated_histories", "histories", "reads", "runs", "spilling_runs"],
            "models": [{"module": "MC_CodeSearch", "quick": "CodeSearch_quick.cfg", "thorough": "CodeSearch_thorough.cfg", "min": 1000}],
            "gen": [{"module": "MC_CodeSearch", "cfg": "CodeSearch_gen.cfg", "simulate": True, "num": 80, "num_thorough": 1500, "depth": 130, "min": 60}]},
    "C22": {"min_events": 100, "require": ["generated_histories", "histories", "sets_over_65536"],
            "models": [{"module": "SparseSet", "quick": "SparseSet_quick.cfg", "thorough": "SparseSet_thorough.cfg", "min": 10000}],
            "gen": [{"module": "SparseSet", "cfg": "SparseSet_gen.cfg", "simulate": True, "num": 100, "num_thorough": 3000, "depth": 200, "min": 100}]},
    "C23": {"min_events": 50, "require": ["calls"]},
}

TECHNIQUE = {
    "C02": "TLA+ semantics of regexps and trigram queries; TLC judges recorded (expression, text, query) events of the real RegexpQuery",
    "C11": "TLA+ position-set semantics of regexps; TLC judges recorded searches of the real matcher",
    "C03": "TLA+ query semantics and a TLC-checked model of the evaluator with restrict lists; TLC judges recorded query results of the real index",
    "C04": "TLA+ abstract index (names, roots, trigram to file ids); TLC judges full read-backs of real builds",
    "C05": "TLC-checked model of the external sort; TLC-simulated spill schedules replayed through the real index writer and judged against the abstract index",
    "C06": "TLC-checked model of the merge algorithm; TLC-generated index pairs and merge chains replayed on the real Merge and judged against the abstract merge",
    "C09": "TLA+ soundness predicate over index files; TLC judges Open and Check on real indexes truncated and altered",
    "C15": "TLC-checked path order and TLA+ name list; TLC judges recorded comparisons and name lookups",
    "C20": "TLA+ abstract index and merge; TLC judges real indexes encoded in the older format and their merges",
    "C21": "executable TLA+ encoder/decoder of the documented format: TLC decodes files the code wrote and encodes files the code must read",
    "C12": "TLC-checked model of the chunked reader against the line-oriented specification; TLC judges recorded outputs of the reader, cgrep and csearch, some on TLC-simulated texts and read splits",
    "C13": "TLC-checked model of the chunked reader with context; TLC-simulated texts, buffers and read splits replayed on the real reader and judged against the context specification",
    "C14": "TLA+ line-oriented specification of counts, lists, limits and exit status; TLC judges recorded runs of the reader, cgrep and csearch",
    "C19": "TLA+ specification of the filtered search (matcher semantics on names); TLC judges recorded csearch runs with and without the filter",
    "C10": "TLA+ definition of eligible text and names, with a TLC-checked model of the streaming scan; TLC judges recorded builds over all byte pairs and the limits' neighbourhoods",
    "C01": "TLA+ system specification (file tree, indexing, grep): TLC judges real cindex/csearch runs on generated trees against the scan the specification defines",
    "C07": "TLA+ system specification CodeSearch: TLC checks the model's invariants, and TLC-simulated plus random histories of file changes and real cindex runs are judged step by step",
    "C24": "TLC-checked model of searches between index updates; TLC-simulated interleavings replayed with real cindex, csearch and csweb processes held at file operations (ptrace, pipes), and stress runs, judged against the TLA+ search specification on each version the search may have seen",
    "C08": "TLC-checked model of the update protocol with kills and failing operations; TLC-simulated fault sequences and a sweep over every file operation of real cindex runs (ptrace) judged against the TLA+ system specification",
    "C18": "TLA+ system specification with archives: TLC-simulated and random histories of real cindex -zip and csearch runs judged against it",
    "C16": "TLA+ model of pages and their parts (TLC-checked on escaping templates); TLC judges pages of the real csweb for hostile data against those for harmless data",
    "C17": "TLA+ model of pages and their parts; TLC judges the real csweb's file and directory pages against the files",
    "C26": "TLA+ system specification with stale indexes: TLC-simulated and random histories of changes, cindex runs and csearch runs judged against it",
    "C27": "TLC-checked model of a server of overlapping requests; TLC-simulated sessions replayed, over and over, on one real csweb with little room, and judged against what answers each kind of request",
    "C28": "TLA+ specification of the effects of commands over the system specification; TLC judges the states of real trees, indexes and directories around TLC-simulated and random histories of cindex, csearch, cgrep and csweb",
    "C29": "TLC-checked TLA+ derivation of what an expression's literal text demands of a file; TLC judges queries of the real RegexpQuery and the files that real csearch and csweb searches open (inotify)",
    "C30": "TLA+ search semantics and model of pages; TLC judges what the real csearch -html prints against the search the specification defines",
    "C31": "TLC-checked TLA+ model of commands and the indexes they name; TLC-simulated and random sessions of real cindex, csearch and csweb commands over many indexes judged against it",
    "C25": "TLA+ search semantics and model of pages; TLC judges the real csweb's result pages against the search the specification defines",
    "C22": "TLC-checked refinement of the sparse set over arbitrarily stale arrays; TLC-simulated histories replayed on the real set and judged against the abstract set",
    "C23": "TLA+ matcher semantics as a function of its arguments; TLC judges recorded sessions on one compiled expression",
}

SCREEN = ("The driver runs many more cases than TLC judges: it compares each with its own transcription of the definitions and hands "
          "everything that differs, and a random sample of the rest, to TLC, whose verdict alone counts. ")
IDX = "The reference is the TLA+ abstract index (IndexModel/TextFilter/Paths); the driver only transcribes names, roots and posting lists read back through the public API. "
GREP = ("The reference is GrepSpec (TLA+): lines, search, context, counts computed from the text; which lines match is decided by the TLA+ matcher semantics or given by construction of the text. ")
NOTES = {
    "C03": IDX + "QueryImpl (postingQuery with restrict lists) is model checked for all queries of bounded depth over small universes; real indexes are queried with generated nested queries, including absent trigrams and trigrams at the boundaries of posting index blocks. A query AND without operands is left unconstrained.",
    "C04": IDX + "Contents, read chunkings, name groups, posting index blocks and buffer boundaries are varied; a share of the indexes is enumerated over all 2^24 trigrams.",
    "C05": IDX + "Spills at generated points, also in the middle of a file, through the writer's own flush (build tag, falls back to natural spills, which are always exercised as well).",
    "C06": IDX + "MergeImpl is checked exhaustively for small path universes; larger pairs and chains of merges are generated by TLC and by the driver.",
    "C09": "Truncations at many (thorough: every) lengths run in a helper process; alterations of posting index entries and lists are judged by the TLA+ soundness predicate; only the three documented forms of unsoundness oblige the check to fail.",
    "C15": IDX + "The order is checked as a total order with the documented directory rule by TLC and sampled comparisons of the real Compare and HasPathPrefix are judged; names are read by id and range.",
    "C20": IDX + "Files in the older format are produced by an encoder in the driver (its own, not the repository's).",
    "C21": "Both directions: bytes the real writer produced are decoded by TLC; bytes TLC or the driver encoded are read by the code. Offsets above 4 GB use sparse files. Posting index entries with count 0, which merges write, are tolerated (the document says such lists are usually omitted).",
    "C02": SCREEN + "Generated expressions over ASCII, case-folding, encoding-boundary and non-BMP alphabets; texts sampled from the language of the expression. Not proved for all expressions. Trusts TLC, Go's regexp/syntax parser (an input of the code under test) and unicode.SimpleFold orbits recorded with each event.",
    "C11": SCREEN + "Valid UTF-8 texts, multi-line, all boundary arguments; \\B only on ASCII texts. Trusts TLC and the fold orbits recorded from Go's unicode tables.",
    "C10": "All 65536 byte pairs in eight contexts; lines of 1999 to 2003 bytes, 19998 to 20002 distinct trigrams, files of 2^30 bytes and one more or less; NUL and pairs at the ends of reads; failing readers, missing files, bad names. Left free: text that is not valid UTF-8 although every pair could occur, and readers that return (0, nil).",
    "C01": "Histories of changes and cindex runs, then csearch with random expressions and flags over the indexed files; also single searches over up to 1600 files. Judged: roots and names of the index, lines printed, exit status. Files do not change between the last run and the search.",
    "C07": "Histories: create, change, remove and rename files, directories, links, pipes, archives; cindex with any roots, -reset, -zip; index in HOME, elsewhere or hidden in the tree; ~ for unreadable files (run as an unprivileged user). After each run the roots, names and the posting lists of sampled trigrams are judged against a run from scratch. Missing paths given as arguments become roots, as in the code.",
    "C24": "TLC-simulated schedules interleave an update (held before its first operation, before and after the renaming), a csearch (held before it opens the index and before it opens a file) and a csweb request (held at a file that is a pipe), while other requests go on. Stress runs search from six clients while updates run slowed down at every file operation. A search must give exactly what the search specification gives on one version current between its start and its end. Files being changed during a search are not covered (only the index changes); clients that disconnect are not covered.",
    "C08": "Real runs of cindex are traced; at every operation on the index, the files beside it and the temporary files the run is killed before, halfway (writes are cut) and after, or the operation fails with one of several errors, once or for good. After each such run the index must be the one from before or the new one, as read back; exit status 0 requires the new one; and where a new combination of files was left behind, the next run must succeed and leave nothing. TLC-simulated sequences interrupt several runs in a row with changes in between. Errors on the indexed files themselves are not injected (they change what is there to be indexed); loss of power (unsynced data) is outside; a first run or one with -reset has no previous index to protect.",
    "C18": "Histories with archives: good, truncated, non-archives, duplicate and hostile entry names, entries that are not text, archive replaced by a directory. Searches after them use -c -l -n -h. Duplicate names in one archive, directory entries and text files named *.zip are not generated.",
    "C16": "Html (TLA+) takes a page apart as a browser would. Each scenario asks csweb (own network namespace, real HTTP) twice, with hostile data and with the five special characters replaced one for one by harmless ones: the tags and attribute names must be the same and the page must show the data. Covers queries, bad queries and filters, file and directory names, archive entries, contents, files that cannot be read any more. Responses that are not HTML are not constrained.",
    "C17": "Files with text around the 1024 bytes csweb looks at, long files, markup in lines and names, CR, other control characters; directories with odd names and links. Text that is neither certainly text nor certainly not may be shown either way.",
    "C26": "After the last run indexed files and archives are removed, replaced, truncated, turned into directories or exchanged; then csearch -c -l -n and -brute. Each file must be shown as it is now or not at all, and must be shown if it matches and has no trigrams it did not have when indexed. Not generated: names replaced by pipes, text that is not UTF-8, unreadable archive entries, -h.",
    "C25": "Result pages for random expressions, filters and files (archives and vanished files included) must show the lines GrepSpec defines, each with a working link, and the count; about 100000 matches and more for the limit; bad expressions. The empty query is the start page and is not generated.",
    "C27": "Sessions of up to four clients at the same time: searches with and without matches, in archives, filtered, refused expressions, pages of files and directories, static files, failures, malformed requests, clients that leave, the index replaced meanwhile. A session is repeated until at least 60 (thorough: 600) searches of a 20 MB index have been served, then kinds of requests are repeated 150 (450) times each and what csweb has open, mapped and in memory is compared; it can map 2 GB more than at first and open 256 files. Not covered: an index that is missing or damaged (csweb ends then, by design), pipes and devices below /show.",
    "C28": "After every command of a history everything there is in the tree (kind, mode, times, owner, links, inode, contents), the index and the two directories around it are compared with what they were: TLC judges the effect of each command. Commands are cindex with any arguments, -list, -check, -reset, refused flags, csearch and cgrep with any flags, csweb requests of all kinds, partly as an unprivileged user. Access times are not compared. Files outside the tree, the directory of the index and the one for temporary files are not watched.",
    "C29": SCREEN + "Expressions of literals, sets of up to three ASCII characters, things that match anything, up to eight alternatives that begin with different characters, and repetitions; where ignoring case has variants outside ASCII nothing is demanded. Searches of up to 30 files and archives by csearch (any flags, with -f, -brute) and csweb; which files are opened is seen by inotify.",
    "C30": "Searches with -html and any of -n -c -l -A -B -C -i -f over hostile names, lines, patterns and archive entries. -h with -html is not documented and not generated; links of archive entries are not constrained; nor is what the link says about the query.",
    "C31": "Sessions of commands with several homes, working directories and values of CSEARCHINDEX (relative ones included), on indexes that are sound, damaged, cut, copied, removed, or in directories that cannot be written. All indexes there are, contents included, exit status and output of -list, csearch -l and csweb are judged after each command. Not covered: no HOME and no CSEARCHINDEX, links among the directories, commands without -check on an index with damage that only the check finds.",
    "C12": GREP + "GrepImpl (TLA+) is a model of the reader's buffer handling that TLC checks for all small texts, buffers and read splits. Texts up to a few megabytes are handed over in a run-length encoding. Lines that do not fit the buffer are left unconstrained.",
    "C13": GREP + "Buffer sizes from a few bytes (build tag; falls back to the real buffer) to the real 1 MB. Required only where every window of context fits the buffer; a matched blank line keeps no indentation, as in the code.",
    "C14": GREP + "Combinations -c with -l, -c or -l with -h and a limit with -c are not generated: their meaning is not documented.",
    "C19": "Names are judged with the TLA+ matcher semantics; runs with other output modes and zip members included. csweb's filter is covered through C25's check.",
    "C22": "The refinement is exhaustive for four (thorough: five) values and any initial contents of the sparse array. Histories on the real set have capacities up to 2^24 and up to 150000 operations; the long ones are screened by the driver and cut to their shortest failing prefix for TLC. Init on a set in use is not covered.",
    "C23": "Every session is judged by TLC on its most informative calls (all calls that differ from a fresh expression or from the string variant are included); long sessions overflow the matcher's state cache.",
}
