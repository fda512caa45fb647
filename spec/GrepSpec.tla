------------------------------ MODULE GrepSpec ------------------------------
(* What a line search prints. Texts and outputs are sequences of runs        *)
(* <<rune, count>>, canonical when no two neighbours have the same rune.     *)
(*                                                                           *)
(* A file is [name, text, nl]: text is a sequence of <<i, count>>, count     *)
(* copies of line tab[i]; nl: the last line ends in a newline. tab[i] is a   *)
(* line without newline, as runs. Expressions are applied to lines in which  *)
(* runs are cut to caprun runes: an expression in which no rune must occur   *)
(* caprun times in a row cannot tell the difference (lines with longer runs  *)
(* are only used with such expressions).                                     *)
EXTENDS Regex

Norm(runs) ==
  FoldLeft(LAMBDA a, r : IF r[2] = 0 THEN a
                         ELSE IF a # <<>> /\ a[Len(a)][1] = r[1] THEN [a EXCEPT ![Len(a)] = <<r[1], @[2] + r[2]>>]
                         ELSE Append(a, r), <<>>, runs)
One(bytes) == [k \in DOMAIN bytes |-> <<bytes[k], 1>>]
Newline == <<<<NL, 1>>>>
Expand(runs, cap) == FlattenSeq([k \in DOMAIN runs |-> [m \in 1..(IF runs[k][2] < cap THEN runs[k][2] ELSE cap) |-> runs[k][1]]])

(* first line number of each run of lines *)
Starts(f) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x[2]), <<1>>, f.text)
NLines(f) == FoldLeft(LAMBDA a, x : a + x[2], 0, f.text)

(* matching, per distinct line: in the middle, as first line, as unterminated last line, as both *)
Table(re, orbits, tab, caprun) ==
  LET f == Flags(orbits)
      M(i, b, e) == LineMatches(re, Expand(tab[i], caprun), [bot |-> b, eot |-> e], f)
  IN TLCEval([i \in DOMAIN tab |-> TLCEval([b \in BOOLEAN |-> TLCEval([e \in BOOLEAN |-> M(i, b, e)])])])

MatchNos(T, f) ==
  LET s == Starts(f)
      n == NLines(f)
      Of(j) == LET i == f.text[j][1] IN
               {k \in s[j]..(s[j + 1] - 1) : T[i][k = 1][k = n /\ ~f.nl]}
      Maybe(j) == LET i == f.text[j][1] IN T[i][FALSE][FALSE] \/ T[i][TRUE][FALSE] \/ T[i][FALSE][TRUE] \/ T[i][TRUE][TRUE]
  IN SortedInts(UNION {IF Maybe(j) THEN Of(j) ELSE {} : j \in DOMAIN f.text})

LineAt(tab, f, s, k) == tab[f.text[CHOOSE j \in DOMAIN f.text : s[j] <= k /\ k < s[j + 1]][1]]

Prefix(o, f) == IF o.h THEN <<>> ELSE Append(One(f.name), <<58, 1>>)

(* context *)
Blank(r) == r[1] \in {32, 9, 13}
RECURSIVE Chomp(_)
Chomp(l) == IF l # <<>> /\ Blank(l[Len(l)]) THEN Chomp(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE Indent(_)
Indent(l) == IF l # <<>> /\ l[1][1] \in {32, 9} THEN [m \in 1..l[1][2] |-> l[1][1]] \o Indent(Tail(l)) ELSE <<>>
Common(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    bad == {k \in 1..n : a[k] # b[k]}
                IN SubSeq(a, 1, IF bad = {} THEN n ELSE Min(bad) - 1)
(* without the first n runes, all of them blanks *)
RECURSIVE Cut(_, _)
Cut(l, n) == IF n = 0 \/ l = <<>> THEN l
             ELSE IF l[1][2] <= n THEN Cut(Tail(l), n - l[1][2])
             ELSE <<<<l[1][1], l[1][2] - n>>>> \o Tail(l)

ContextOut(o, tab, f, s, k) ==
  LET n == NLines(f)
      lo == IF k - o.pre < 1 THEN 1 ELSE k - o.pre
      hi == IF k + o.post > n THEN n ELSE k + o.post
      ls == TLCEval([j \in lo..hi |-> Chomp(LineAt(tab, f, s, j))])
      \* the indentation common to the matching line and all lines that are not blank
      ind == FoldLeft(LAMBDA a, j : IF ls[j] = <<>> THEN a ELSE Common(a, Indent(ls[j])), Indent(ls[k]),
                      [j \in 1..(hi - lo + 1) |-> lo + j - 1])
      mark(j) == IF j = k THEN One(<<9, 62, 62, 9>>) ELSE One(<<9, 9>>)
  IN Prefix(o, f) \o One(Digits(k)) \o One(<<58, NL>>)
     \o FlattenSeq([j \in 1..(hi - lo + 1) |-> mark(lo + j - 1) \o Cut(ls[lo + j - 1], Len(ind)) \o Newline])

MatchOut(o, tab, f, s, k) ==
  IF o.pre + o.post > 0 THEN ContextOut(o, tab, f, s, k)
  ELSE Prefix(o, f) \o (IF o.n THEN One(Digits(k)) \o <<<<58, 1>>>> ELSE <<>>) \o LineAt(tab, f, s, k) \o Newline

(* One file after another. State: [out, any, matches, limited]. limit 0: none. *)
Search(o, re, orbits, tab, caprun, files) ==
  LET T == Table(re, orbits, tab, caprun)
      File(a, f) ==
        LET ml == TLCEval(MatchNos(T, f))
            s == TLCEval(Starts(f))
            room == IF o.limit = 0 THEN Len(ml) ELSE IF o.limit > a.matches THEN o.limit - a.matches ELSE 0
            take == IF room < Len(ml) THEN room ELSE Len(ml)
        IN IF ml = <<>> THEN a
           ELSE IF o.l THEN
             (IF o.limit > 0 /\ a.matches >= o.limit THEN [a EXCEPT !.any = TRUE, !.limited = TRUE]
              ELSE [a EXCEPT !.any = TRUE, !.matches = @ + 1, !.out = @ \o One(f.name) \o Newline])
           ELSE IF o.c THEN
             [a EXCEPT !.any = TRUE, !.matches = @ + Len(ml),
                       !.out = @ \o One(f.name) \o One(<<58, 32>>) \o One(Digits(Len(ml))) \o Newline]
           ELSE [a EXCEPT !.any = TRUE, !.matches = @ + take, !.limited = @ \/ take < Len(ml),
                          !.out = @ \o FlattenSeq([j \in 1..take |-> MatchOut(o, tab, f, s, ml[j])])]
      r == FoldLeft(File, [out |-> <<>>, any |-> FALSE, matches |-> 0, limited |-> FALSE], files)
  IN [r EXCEPT !.out = Norm(@)]

(* When the implementation's buffer of cap bytes is large enough: any pre + 1 + post consecutive lines fit in it *)
(* (with a byte to spare if there is context). A last line without newline is counted as if it had one: where   *)
(* it fills the buffer to the last byte there is no room left to see that it ends. For texts of few lines.      *)
Width(l) == FoldLeft(LAMBDA a, r : a + (r[2] * Utf8Len(r[1])), 0, l)
FitsBuffer(o, tab, f, cap) ==
  LET s == Starts(f)
      n == NLines(f)
      w == o.pre + 1 + o.post
      W == TLCEval([i \in DOMAIN tab |-> Width(tab[i])])
      wd == TLCEval([k \in 1..n |-> W[f.text[CHOOSE j \in DOMAIN f.text : s[j] <= k /\ k < s[j + 1]][1]]
 + 1])
      sum(a, b) == FoldLeft(LAMBDA x, k : x + wd[k], 0, [k \in 1..(b - a + 1) |-> a + k - 1])
  IN \A a \in 1..n : sum(a, IF a + w - 1 < n THEN a + w - 1 ELSE n) + (IF w > 1 THEN 1 ELSE 0) <= cap
=============================================================================
