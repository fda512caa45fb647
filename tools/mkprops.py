#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the statements).
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

p("C01", "A search misses no matching line of an indexed, unchanged file",
  "For every regular expression and every set of indexed text files that have not changed since they were indexed, csearch prints exactly the lines that scanning every indexed file would print, file by file in index order, with or without -i. The index only ever saves work: it never hides a file that contains a match.",
  ["inputs", "configurations"], "every regular expression, every corpus of indexable files, every layout of the index they produce",
  "TestQuery compares about 50 printed queries; no test searches an index and compares with a scan.",
  ["cmd/csearch/csearch.go", "index/regexp.go", "index/read.go", "index/write.go", "regexp/match.go"],
  [("query derived from the regexp", "index/regexp.go RegexpQuery"), ("posting list evaluation", "index/read.go PostingQuery"), ("line matcher", "regexp/match.go")],
  ["csearch standard output and exit status, against the lines of the files"])
p("C02", "The trigram query never rules out a text that contains a match",
  "For every regular expression, any text containing a line that matches it satisfies the trigram query computed for that expression. This holds for literals, case folding, character classes, alternation, repetition, anchors and their combinations, and whatever simplification the query has gone through.",
  ["programs", "inputs"], "every regular expression and every text with a matching line",
  "TestQuery pins the printed form of about 50 queries and never evaluates one against a text.",
  ["index/regexp.go"],
  [("exact/prefix/suffix sets", "index/regexp.go analyze, concat, alternate"), ("set size reduction", "index/regexp.go simplify, simplifySet"), ("boolean simplification", "index/regexp.go andOr, implies")],
  ["the Query returned for a regexp, evaluated on the trigrams of matching texts"])
p("C03", "A posting query returns exactly the files that satisfy it",
  "For every index and every query built from trigrams, AND, OR, match-all and match-none, nested in any way, evaluating the query returns exactly the ids of the files whose trigrams satisfy it, each once, in increasing order. Looking up one trigram, and intersecting or uniting an existing list with a trigram, are the corresponding set operations.",
  ["inputs", "programs"], "every query tree over every index",
  "TestTrivialPosting evaluates six single-operator lookups on one index of four files; nested queries are never evaluated.",
  ["index/read.go"],
  [("recursive evaluation with a restrict list", "index/read.go postingQuery"), ("list merging", "index/read.go postingAnd, postingOr, mergeOr"), ("trigram lookup", "index/read.go findList, findListV2")],
  ["result of PostingQuery, PostingList, PostingAnd, PostingOr"])
p("C04", "An index records exactly the names and trigrams of the files added",
  "After any sequence of files has been added to a new index in path order, reading it back yields exactly the accepted names in that order, the given roots, and for every three-byte sequence exactly the files whose content contains it. This holds for any number of files, any file sizes and name lengths, and however the content arrives from its reader.",
  ["inputs", "configurations"], "every sequence of files, contents, names, read chunkings and corpus sizes",
  "Tests build indexes of at most eight files of a few bytes, inside one name group, one posting-index block and one buffer.",
  ["index/write.go", "index/read.go", "index/path.go", "index/delta.go", "sparse/set.go"],
  [("trigram collection", "index/write.go add"), ("posting lists and posting index blocks", "index/write.go postDataWriter"), ("prefix-compressed names", "index/path.go PathWriter"), ("buffering", "index/write.go Buffer")],
  ["names, roots and posting lists read back through Open"])
p("C05", "Index content does not depend on when memory was flushed",
  "Whatever the moments at which accumulated postings are spilled to disk while an index is built, including in the middle of a file, the finished index holds the same names and the same posting lists. No posting is lost, duplicated or attributed to another file by spilling and merging the runs.",
  ["schedules", "inputs"], "every placement and number of spills during a build",
  "TestTrivialWriteDisk flushes at two fixed points of one six-file index; automatic spilling needs 8 million postings and is never reached.",
  ["index/write.go"],
  [("spill of sorted runs", "index/write.go flushPost, sortPost"), ("k-way merge of runs", "index/write.go mergePost, postHeap"), ("run reader", "index/read.go allPostReader")],
  ["posting lists read back, per spill schedule"])
p("C06", "Merging indexes: the newer one wins under its roots, the rest is kept",
  "Merging an older and a newer index gives the files of the newer one plus those files of the older one that are not under a root of the newer one, in path order, each with its own trigrams; the roots are those of both without any that lie under another. This holds for any roots and names, for indexes that are themselves the result of merges, and for any number of merges in a row.",
  ["inputs", "histories"], "every pair of indexes and every chain of merges",
  "TestMerge merges one fixed pair of indexes, once.",
  ["index/merge.go", "index/path.go"],
  [("file id ranges kept from each side", "index/merge.go Merge, idrange"), ("posting list renumbering", "index/merge.go postMapReader"), ("root list merge", "index/merge.go, index/path.go HasPathPrefix")],
  ["names, roots and posting lists of the merged index"])
p("C07", "Any history of cindex runs leaves exactly the expected roots and files",
  "After any sequence of cindex runs (adding paths, reindexing, -reset) interleaved with changes to the files, the index lists as roots the paths given since the last reset (without those under another), and holds for each root the eligible text files as they were when a run last covered them. Every run on existing paths succeeds, overlapping or repeated paths included, and leaves neither temporary nor intermediate files behind; -list prints the roots and -reset without paths removes the index.",
  ["histories", "inputs"], "every sequence of cindex invocations and file system edits between them",
  "No test runs cindex at all.",
  ["cmd/cindex/cindex.go", "index/merge.go", "index/write.go"],
  [("root handling and tree walk", "cmd/cindex/cindex.go main"), ("incremental update by merge", "index/merge.go Merge"), ("temporary file removal", "index/write.go Flush, index/merge.go Merge")],
  ["cindex -list, csearch output, the index read back, directory listings"])
p("C08", "An interrupted or failing update never damages the existing index",
  "If an incremental cindex run is killed at any point, or any of its file operations fails, the index file still is a complete index, either the one from before the run or the one the run would have produced. A run that reports success has put the new index in place. A later run succeeds and yields the same index as if nothing had happened.",
  ["crash_points", "fault_sequences"], "a kill or an I/O error at every file-system operation of an update",
  "No test runs an update, interrupts one, or injects an I/O error.",
  ["cmd/cindex/cindex.go", "index/write.go", "index/merge.go"],
  [("update written beside the index and renamed over it", "cmd/cindex/cindex.go main"), ("errors while writing are fatal", "index/write.go Buffer")],
  ["the index file after the process ended, and after the next run"])
p("C09", "A truncated index is refused, and the check accepts exactly sound indexes",
  "Opening an index file that has been cut short at any length is refused instead of giving answers. The index check passes on every index that a build or merge produces, and fails on one in which a posting list does not start with its trigram, does not hold the number of files the posting index claims, or is not terminated.",
  ["inputs", "crash_points"], "every index and every truncation point; every posting-index entry and list that is altered",
  "No test opens a truncated or damaged index or runs the check.",
  ["index/read.go", "index/check.go"],
  [("trailer magic at the end of the file", "index/read.go Open"), ("posting list verification", "index/check.go Check")],
  ["outcome of Open and of Check"])
p("C10", "Exactly the text files are indexed, and skipped files leave no trace",
  "A file is indexed if it is valid UTF-8 without NUL bytes, is at most 1 GB long, has no line longer than 2000 bytes (newline included) and at most 20000 distinct trigrams; a file with a NUL, a byte pair that cannot occur in UTF-8-style text, a longer line, or more bytes or trigrams is not. A file that is skipped, unreadable or badly named contributes no name and no posting and does not affect its neighbours.",
  ["inputs"], "every file content and every sequence of files",
  "All test files are short ASCII texts; no limit is ever reached.",
  ["index/write.go"],
  [("scan with early exit", "index/write.go add"), ("byte pair rule", "index/write.go validUTF8"), ("name rule", "index/write.go isValidName")],
  ["names and postings of the index built from the files"])
p("C11", "A line matches exactly when the regular expression says so",
  "Searching a text finds its first line containing a match under the standard meaning of the expression applied to that line alone: literals, classes over all of Unicode, case folding, alternation, repetition, line and text anchors, and ASCII word boundaries. Searching from the line after a match finds the next one, so that every matching line and no other is found.",
  ["programs", "inputs"], "every regular expression and every valid UTF-8 text",
  "TestMatch samples about 90 short cases, nearly all ASCII and single-line.",
  ["regexp/match.go", "regexp/utf.go", "regexp/regexp.go", "regexp/copy.go"],
  [("byte program", "regexp/utf.go toByteProg, addRange"), ("DFA with look-ahead flags", "regexp/match.go computeNext"), ("line-at-a-time scan", "regexp/match.go match")],
  ["result of Match and MatchString"])
p("C12", "Grep prints each matching line once, in order, with its line number",
  "For any input, cgrep and csearch output exactly the matching lines, each once, complete and in order, prefixed by the file name (unless -h) and, with -n, by the line's number in the file. The result does not depend on how the input is split into reads or where internal buffer boundaries fall, nor on whether the last line ends in a newline.",
  ["inputs", "schedules"], "every input, read chunking and buffer alignment, for lines that fit the buffer",
  "TestGrep runs two inputs of three short lines in a single read; no buffer boundary is ever crossed.",
  ["regexp/match.go", "cmd/cgrep/cgrep.go"],
  [("chunked scan with line fragments carried over", "regexp/match.go Reader"), ("line counting", "regexp/match.go countNL")],
  ["bytes written to standard output"])
p("C13", "Context output shows the right lines around each match",
  "With -A, -B or -C, each match is shown as a header with the file name and the matching line's number, then the up to n lines that really precede it, the marked line, and the up to n lines that really follow it, in order, with trailing blanks and their common indentation removed. This holds at the beginning and end of the file and across internal buffer boundaries.",
  ["inputs", "configurations"], "every input, context size and buffer alignment that leaves room for the context",
  "No test prints context.",
  ["regexp/match.go"],
  [("look-ahead and look-behind kept in the buffer", "regexp/match.go Reader, lineSuffixLen, linePrefixLen"), ("context formatting", "regexp/match.go lineContext")],
  ["bytes written to standard output"])
p("C14", "Counts, file lists, limits and exit status agree with the matching lines",
  "With -c a file's printed count is its number of matching lines and files without any are not printed; with -l exactly the files with a match are printed, once each; a match limit reports that it cut results off only if there are more matches than the limit, and prints exactly that many. cgrep and csearch exit with status 0 if some line matched and 1 if none did.",
  ["inputs", "configurations"], "every input set and combination of output flags",
  "No test uses -c, -l, a limit, or looks at an exit status.",
  ["regexp/match.go", "cmd/cgrep/cgrep.go", "cmd/csearch/csearch.go"],
  [("mode switch per match", "regexp/match.go Reader"), ("exit status from whether anything matched", "cmd/cgrep/cgrep.go main, cmd/csearch/csearch.go main")],
  ["standard output, the reader's counters, exit status"])
p("C15", "Paths are ordered by directory and every stored name is found by its id",
  "Paths compare in a total order in which a directory is followed by everything below it before any sibling that merely continues its name. Reading names back one by one, by id, or for any range of ids gives exactly the stored names, whatever their number, length and shared prefixes.",
  ["inputs"], "every set of paths and every id or range",
  "Tests read ids 0..7 of lists of at most eight short names; the order is never tested.",
  ["index/path.go", "index/read.go"],
  [("comparison with slash lowest", "index/path.go Compare"), ("prefix groups of 16 names and their index", "index/path.go PathWriter, index/read.go NamesAt, Name, Names")],
  ["Compare, HasPathPrefix, Name, Names, NamesAt, Roots"])
p("C16", "csweb pages never let searched or indexed data become markup",
  "Whatever the query, file filter, file names, directory entries and file contents are, the HTML pages csweb serves for searches, text files and directories have the same tag and attribute structure as for harmless data of the same shape. All such data appears only as escaped text or inside quoted attribute values, error messages included.",
  ["inputs"], "every query, filter, file name and text file content",
  "csweb has no tests.",
  ["cmd/csweb/web.go", "regexp/match.go"],
  [("escaping in the search page", "cmd/csweb/web.go home, regexp/match.go esc"), ("escaping in the file view", "cmd/csweb/web.go printHeader, serveDir, serveFile")],
  ["bytes of the HTTP responses"])
p("C17", "csweb's file view reproduces the file, line by line",
  "Viewing a text file shows each of its lines exactly once, in order, unaltered after unescaping, under an anchor carrying its line number. Viewing a non-text file returns its bytes unchanged, viewing a directory links every entry, and both name the parts of their path, each with a link to it.",
  ["inputs"], "every file and directory",
  "csweb has no tests.",
  ["cmd/csweb/web.go"],
  [("line rendering", "cmd/csweb/web.go serveFile"), ("text detection", "cmd/csweb/web.go isText"), ("directory rendering", "cmd/csweb/web.go serveDir")],
  ["bytes of the HTTP responses"])
p("C18", "Files inside zip archives are indexed and searched like ordinary files",
  "With zip indexing on, each distinctly named text entry of a zip archive is indexed under the archive's name followed by the entry's, and searching finds exactly the matching lines of those entries, also among several archives and ordinary files and after incremental updates. With it off, an archive is treated as any other file.",
  ["inputs", "histories"], "every set of archives and entries, and every update sequence",
  "TestZip indexes one archive and checks four posting lists; nothing searches inside an archive.",
  ["index/write.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go", "index/merge.go"],
  [("entry enumeration in path order", "index/write.go Add"), ("reading entries back at search time", "cmd/csearch/csearch.go Main"), ("zip names inside a root's range", "index/merge.go Merge")],
  ["csearch output, names in the index"])
p("C19", "A file-name filter restricts a search to exactly the matching names",
  "With -f, csearch prints exactly those results of the same search without -f whose file name contains a match of the filter expression, in the same order. csweb's filter does the same.",
  ["inputs", "programs"], "every search, filter expression and set of file names",
  "No test runs csearch or csweb.",
  ["cmd/csearch/csearch.go", "cmd/csweb/web.go"],
  [("filter over candidate names", "cmd/csearch/csearch.go Main, cmd/csweb/web.go home")],
  ["csearch output with and without -f"])
p("C20", "Indexes in the older format answer alike and can be updated",
  "An index file in the older 32-bit format gives the same names, roots and query results as one in the current format with the same files. Merging where either or both sides are in the older format loses and invents nothing and yields a current-format index.",
  ["inputs", "histories"], "every corpus and every mix of formats in a merge",
  "TestMerge has one older-format input; no query is compared between formats.",
  ["index/read.go", "index/merge.go", "index/path.go"],
  [("format detection by trailer", "index/read.go Open"), ("older lookups", "index/read.go findList, postIndexEntry, NamesAt"), ("older posting reader", "index/merge.go postMapReader")],
  ["names, roots, posting lists, merged index"])
p("C21", "Index files follow the documented on-disk format, written and read",
  "Every index file written can be decoded according to the documented format to exactly the roots, names and posting lists it should hold, and every file encoded according to that format is read back to exactly what was encoded. So indexes stay readable between builds of the program, for file-id gaps and offsets of any magnitude.",
  ["inputs", "configurations"], "every index content, every file-id gap, every layout of blocks and groups",
  "Tests pin the bytes of one six-file index, and round-trip the gap code through its own reader and writer.",
  ["index/write.go", "index/read.go", "index/delta.go", "index/path.go", "index/merge.go"],
  [("gap code", "index/delta.go"), ("posting index blocks of 256 bytes", "index/write.go postDataWriter"), ("name groups", "index/path.go"), ("trailer", "index/write.go Flush, index/read.go Open")],
  ["the bytes of index files, and what is read from crafted ones"])
p("C22", "The sparse set behaves as a set under every history of operations",
  "After any sequence of insertions, membership tests and resets, the set contains exactly the values added since the last reset, reports its size, and lists them once each in insertion order. This holds however stale its internal arrays are.",
  ["histories"], "every sequence of operations on every capacity",
  "The sparse package has no tests.",
  ["sparse/set.go"],
  [("dense and sparse arrays validated against each other", "sparse/set.go")],
  ["Has, Len, Dense after each operation"])
p("C23", "Matching does not depend on what the regexp matched before",
  "The answer for a text depends only on the expression, the text and the text-boundary arguments: a compiled expression that has been used on any sequence of other texts answers as a freshly compiled one, and as the string variant does. Lazily built matcher state is never observable.",
  ["histories", "inputs"], "every sequence of searches on one compiled expression",
  "TestMatch uses each compiled expression on one text.",
  ["regexp/match.go", "sparse/set.go"],
  [("state cache keyed by encoded instruction set and flags", "regexp/match.go cache, enc, dec"), ("per-state transition table", "regexp/match.go match, matchString")],
  ["results of successive Match and MatchString calls"])
p("C24", "Concurrent searches are isolated and each sees one complete index",
  "Any number of csweb requests and csearch runs executing at the same time, also while the index is being updated incrementally, each produce the result their own query has on one complete index, the one before or the one after the update. No request's output, matches or limits leak into another's.",
  ["schedules"], "every interleaving of requests and updates",
  "Nothing is tested concurrently.",
  ["cmd/csweb/web.go", "cmd/csearch/csearch.go", "cmd/cindex/cindex.go", "index/read.go"],
  [("per-request search state", "cmd/csweb/web.go home"), ("index opened per request and replaced by rename", "index/read.go Open, cmd/cindex/cindex.go main")],
  ["HTTP responses and csearch outputs under concurrency"])
p("C25", "csweb search shows the same matches as csearch",
  "For every query and filter, csweb's result page lists exactly the matching lines csearch prints, each with its file name, line number and text, in the same order and up to the match limit, followed by the number of matches shown and, only if there are more than the limit, a note saying so. A query or filter that is not a valid expression gives an error message and no results.",
  ["inputs", "programs"], "every query, filter and corpus",
  "csweb has no tests.",
  ["cmd/csweb/web.go", "regexp/match.go"],
  [("search handler", "cmd/csweb/web.go home"), ("HTML output mode", "regexp/match.go Reader")],
  ["the text content and links of result pages"])
p("C26", "Searching with an outdated index shows files as they are now",
  "When indexed files have changed or gone since they were indexed, a search still ends normally and shows for each indexed file either exactly its present matching lines or nothing: nothing for what can no longer be read, all of them for a file that has a match and no three-byte sequence that it did not have when it was indexed, and with -brute for every file that has a match. Files and archive entries are never confused with each other.",
  ["inputs", "histories"], "every history of changes, indexing and searches",
  "No test changes a file after indexing it or searches an archive that is gone.",
  ["cmd/csearch/csearch.go", "index/read.go"],
  [("opening of the candidate files and archives", "cmd/csearch/csearch.go main"), ("-brute", "cmd/csearch/csearch.go main")],
  ["csearch's output and exit status"])
p("C27", "csweb keeps answering, however many requests it has served",
  "A csweb goes on serving: after any number and mix of earlier and simultaneous requests (searches with any result, refused expressions, pages of files and directories, failures, malformed requests, clients that disconnect) and while the index is replaced again and again, every request is answered completely and as its own kind requires. What a request took, such as the mapping of the index, is given back when it is over.",
  ["histories", "schedules"], "every sequence and overlap of requests",
  "csweb has no tests.",
  ["cmd/csweb/web.go", "index/read.go"],
  [("handlers", "cmd/csweb/web.go home, show"), ("index opened per request", "index/read.go Open")],
  ["HTTP responses of one csweb over a long session"])
p("C28", "Indexing, searching and showing never change what they read",
  "cindex, csearch, cgrep and csweb never create, change, rename or remove anything in the trees they index, search or show, whatever those contain. Only cindex changes the index, and only when asked to index or to reset; csearch, cgrep, csweb, cindex -list and refused commands leave it byte for byte as it was. No command leaves temporary or other files behind.",
  ["histories", "inputs"], "every tree and every history of commands and requests",
  "No test looks at what the commands leave behind.",
  ["cmd/cindex/cindex.go", "cmd/csearch/csearch.go", "cmd/cgrep/cgrep.go", "cmd/csweb/web.go", "index/write.go", "index/merge.go"],
  [("walk of the tree and replacement of the index", "cmd/cindex/cindex.go main"), ("temporary files", "index/write.go bufCreate, index/merge.go Merge")],
  ["the state of the file system after each command and request"])
p("C29", "The index narrows a search to the files that its literal text allows",
  "The trigram query of an expression is no weaker than the literal text of the expression: a file is a candidate only if it has, for any three consecutive bytes of literal text that every match contains, these three bytes, in one of their variants where a small set of characters or ignoring the case of ASCII letters allows several. Things that match anything (such as .* or an anchor) only separate pieces of literal text; a repetition demands what is repeated; alternatives that begin with different characters demand what one of them does. csearch without -brute, and csweb, open only indexed files and archives with candidates among them, and with a filter only those whose names it matches.",
  ["inputs"], "every expression made of literal text, small sets, separators, repetitions and alternatives, every filter and every set of indexed files",
  "The tests compare the queries of fixed expressions; no test looks at which files a search opens.",
  ["index/regexp.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go", "index/read.go"],
  [("derivation of queries", "index/regexp.go RegexpQuery, analyze, concat, alternate, simplify"), ("search only of candidates", "cmd/csearch/csearch.go main, cmd/csweb/web.go home")],
  ["the query of an expression", "the files opened during a search"])
p("C30", "csearch -html shows the same results as a page with links",
  "With -html, csearch prints HTML that shows, as a browser would, exactly the text that csearch -n prints with the same other options and without -html (lines with names and numbers, names with -l, counts with -c, context with -A, -B and -C), and ends with the same exit status. Each line, name or count of a file is a link to csweb's page of that file, at that line; nothing in names, lines or patterns becomes markup, and there is no other markup.",
  ["inputs"], "every search, its options, file names and contents",
  "No test runs csearch with -html.",
  ["regexp/match.go", "cmd/csearch/csearch.go"],
  [("HTML output of matches", "regexp/match.go Reader, esc, showURL"), ("-html", "cmd/csearch/csearch.go main")],
  ["csearch's output and exit status"])
p("C31", "Each command works on the index it is told to, and says when it fails",
  "cindex, csearch and csweb work on the index that CSEARCHINDEX names (a relative name counts from the working directory), or on $HOME/.csearchindex if it is unset or empty, and never on another: every other index stays as it is. cindex -list prints the recorded paths, one per line, in path order. cindex -reset without paths removes the index; with paths it replaces it. -check refuses, with a failing exit status, an index with wrong posting lists and leaves it as it is; for a sound index, -check, -verbose, -stats and -cpuprofile make no difference to the result. A command that cannot do what it was told (a missing or truncated index, one that cannot be written or removed, an unknown flag) fails with a non-zero exit status, prints no results and leaves every index as it was; otherwise cindex exits with status 0.",
  ["histories", "inputs"], "every session of commands with any working directories, homes and values of CSEARCHINDEX, over any number of indexes, whatever users do to these in between",
  "No test runs cindex, and none looks at how an index is found.",
  ["cmd/cindex/cindex.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go", "index/read.go"],
  [("location of the index", "index/read.go File"), ("flags and failures", "cmd/cindex/cindex.go main")],
  ["every index there is after each command", "exit status and output of cindex -list, csearch and csweb"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
