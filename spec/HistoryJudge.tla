---------------------------- MODULE HistoryJudge ----------------------------
(* Recorded histories (changes to a tree, runs of cindex, searches) against  *)
(* CodeSearch.                                                               *)
EXTENDS IndexJudge, CodeSearch, GrepSpec

EnvOf(e) == [elig |-> TLCEval([c \in DOMAIN e.contents |-> Eligible(e.contents[c]) = "yes"]),
             tri |-> TLCEval([c \in DOMAIN e.contents |-> TLCEval(Trigrams(e.contents[c]))]),
             arch |-> e.arch]

Tree0 == <<SLASH>> :> [kind |-> "dir", ok |-> TRUE, c |-> 0]

(* what a run of cindex leaves *)
RunHolds(e, o, ix) ==
  /\ Chk(e, "exit status", o.exit = 0)
  /\ Chk(e, "files left behind", o.left = <<>>)
  /\ Chk(e, "index exists", o.exists = ix.exists)
  /\ ix.exists => /\ Chk(e, "list", o.listexit = 0 /\ o.list = ix.roots)
                  /\ Chk(e, "index", ReadsBack(ix, o.got))

TreeAfter(fs, o) ==
  CASE o.op = "put" -> Put(fs, o.path, [kind |-> o.kind, ok |-> o.ok, c |-> o.c])
    [] o.op = "del" -> Del(fs, o.path)
    [] o.op = "move" -> Move(fs, o.path, o.to)
    [] OTHER -> fs
IndexAfter(env, fs, ix, o) ==
  IF o.op = "run" THEN RunIndex(env, fs, ix, Range(o.args), o.reset, o.zip) ELSE ix

(* the trees and indexes after each operation *)
States(e, env) ==
  FoldLeft(LAMBDA a, o : LET fs == TLCEval(TreeAfter(a[Len(a)].fs, o))
                         IN Append(a, [fs |-> fs, ix |-> TLCEval(IndexAfter(env, fs, a[Len(a)].ix, o))]),
           <<[fs |-> Tree0, ix |-> NoIndex]>>, e.ops)

(* --- searches --- *)

(* the runes of a byte sequence; a byte that is not part of valid UTF-8 counts as rune 56320 plus the byte *)
Decode(t) ==
  LET Len1(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
      step(a, k) ==
        IF k < a.next THEN a
        ELSE LET b == t[k]
                 n == Len1(b)
                 ok == k + n - 1 <= Len(t) /\ ValidUtf8(SubSeq(t, k, k + n - 1))
                 C(j) == t[k + j] - 128
                 r == CASE n = 1 -> b
                        [] n = 2 -> (b - 192) * 64 + C(1)
                        [] n = 3 -> (b - 224) * 4096 + C(1) * 64 + C(2)
                        [] OTHER -> (b - 240) * 262144 + C(1) * 4096 + C(2) * 64 + C(3)
             IN IF ok THEN [out |-> Append(a.out, r), next |-> k + n] ELSE [out |-> Append(a.out, 56320 + b), next |-> k + 1]
  IN FoldLeft(step, [out |-> <<>>, next |-> 1], [k \in DOMAIN t |-> k]).out

(* the contents number of an indexed file *)
ContentOf(env, fs, name) ==
  LET M == {k \in DOMAIN name : name[k] = 1} IN
  IF M = {} THEN fs[name].c
  ELSE LET m == Min(M)
           A == env.arch[fs[SubSeq(name, 1, m - 1)].c]
       IN A[CHOOSE k \in DOMAIN A : A[k].name = SubSeq(name, m + 1, Len(name))].c

(* What csearch prints when the indexed files have not changed: what a scan of all of them finds. *)
SearchResult(e, env, fs, ix, o) ==
  LET C == TLCEval([k \in DOMAIN ix.files |-> ContentOf(env, fs, ix.files[k].name)])
      lines == TLCEval([c \in Range(C) |-> TLCEval(LET L == Lines(Decode(e.contents[c])) IN [j \in DOMAIN L |-> Norm(One(L[j]))])])
      tab == TLCEval(SetToSeq(UNION {Range(lines[c]) : c \in Range(C)}))
      no == TLCEval([l \in Range(tab) |-> CHOOSE j \in DOMAIN tab : tab[j] = l])
      text(c) == [j \in DOMAIN lines[c] |-> <<no[lines[c][j]], 1>>]
      file(k) == [name |-> Decode(ix.files[k].name), text |-> text(C[k]),
                  nl |-> LET t == e.contents[C[k]] IN t = <<>> \/ t[Len(t)] = NL]
  IN Search(o.o, o.re, o.orbits, tab, 1000000, TLCEval([k \in DOMAIN ix.files |-> TLCEval(file(k))]))

Unchanged(env, fs, ix) == \A k \in DOMAIN ix.files : env.tri[ContentOf(env, fs, ix.files[k].name)] = ix.files[k].tri

SearchOpHolds(e, env, fs, ix, o) ==
  /\ Assert(ix.exists /\ Unchanged(env, fs, ix), "files have changed")
  /\ LET want == SearchResult(e, env, fs, ix, o)
     IN /\ Chk(e, "output", o.out = want.out)
        /\ Chk(e, "status", o.exit = (IF want.any THEN 0 ELSE 1))

(* --- searches when indexed files have changed since --- *)

(* what a name of the index stands for now: the number of its contents, 0 if there is nothing to read *)
Current(env, fs, name) ==
  LET M == {k \in DOMAIN name : name[k] = 1} IN
  IF M = {} THEN (IF name \in DOMAIN fs /\ fs[name].kind = "file" THEN fs[name].c ELSE 0)
  ELSE LET m == Min(M)
           z == SubSeq(name, 1, m - 1)
       IN IF z \in DOMAIN fs /\ fs[z].kind = "arch"
          THEN LET A == env.arch[fs[z].c]
                   K == {k \in DOMAIN A : A[k].name = SubSeq(name, m + 1, Len(name)) /\ A[k].ok}
               IN IF K = {} THEN 0 ELSE A[CHOOSE k \in K : TRUE].c
          ELSE 0

RunCodes(runs) == FlattenSeq([k \in DOMAIN runs |-> [m \in 1..runs[k][2] |-> runs[k][1]]])

(* Every file is shown as it is now or not at all; it is shown if it has matching lines and no trigrams that it did *)
(* not have when it was indexed (or if all files are looked at). P: how much of the output there may be so far.     *)
StaleOpHolds(e, env, fs, ix, o) ==
  LET out == TLCEval(RunCodes(o.out))
      C == TLCEval([k \in DOMAIN ix.files |-> Current(env, fs, ix.files[k].name)])
      chunk(k) ==
        LET t == e.contents[C[k]]
            L == TLCEval(Lines(Decode(t)))
            tab == TLCEval([j \in DOMAIN L |-> Norm(One(L[j]))])
            f == [name |-> Decode(ix.files[k].name), text |-> [j \in DOMAIN L |-> <<j, 1>>], nl |-> t = <<>> \/ t[Len(t)] = NL]
        IN TLCEval(RunCodes(Search(o.o, o.re, o.orbits, tab, 1000000, <<f>>).out))
      step(P, k) ==
        IF C[k] = 0 THEN P
        ELSE LET c == TLCEval(chunk(k))
                 on == {p + Len(c) : p \in {q \in P : q + Len(c) <= Len(out) /\ SubSeq(out, q + 1, q + Len(c)) = c}}
             IN TLCEval(IF c = <<>> THEN P ELSE IF o.brute \/ env.tri[C[k]] \subseteq ix.files[k].tri THEN on ELSE P \cup on)
  IN /\ Assert(ix.exists, "no index")
     /\ Chk(e, "output", Len(out) \in FoldLeft(step, {0}, [k \in DOMAIN ix.files |-> k]))
     /\ Chk(e, "status", o.exit = (IF out = <<>> THEN 1 ELSE 0))

(* V(e, env, fs, ix, o): what must hold of operation o, after which tree and index are as given *)
HistoryHolds(e, V(_, _, _, _, _)) ==
  LET env == TLCEval(EnvOf(e))
      S == TLCEval(States(e, env))
  IN \A k \in DOMAIN e.ops : V(e, env, S[k + 1].fs, S[k + 1].ix, e.ops[k])
=============================================================================
