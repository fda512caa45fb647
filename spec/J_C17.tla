-------------------------------- MODULE J_C17 -------------------------------
(* C17: the view of a file shows its lines, the view of a directory its      *)
(* entries. Contents are sequences of runes (0xdc00 + b: not UTF-8).         *)
EXTENDS WebJudge

Invalid(c) == c >= 56320 /\ c <= 56575
Control(c) == c < 32 /\ c \notin {9, 10, 12}
(* the byte offset of each rune *)
Offsets(d) == FoldLeft(LAMBDA a, c : Append(a, a[Len(a)] + (IF Invalid(c) THEN 1 ELSE Utf8Len(c))), <<0>>, d)
(* Text for certain: nothing in it is unusual. Binary for certain: something is, early on but not at the very end. *)
ClearText(d) == \A k \in DOMAIN d : ~Invalid(d[k]) /\ ~Control(d[k]) /\ d[k] # 65533
ClearBinary(d) ==
  LET K == {k \in DOMAIN d : Invalid(d[k]) \/ (Control(d[k]) /\ d[k] # 13)}
      o == Offsets(d)
  IN \E k \in K : o[k] < 1000 /\ o[k] + 4 <= o[Len(o)]

LineId(v) == Len(v) > 1 /\ v[1] = 76 /\ \A k \in 2..Len(v) : v[k] \in 48..57
LStrip(s) == LET K == {k \in DOMAIN s : s[k] # 32} IN IF K = {} THEN <<>> ELSE SubSeq(s, Min(K), Len(s))
Rendered(e) ==
  LET pg == TLCEval(Page(e.page))
      ls == TLCEval(Lines(e.data))
      sp == TLCEval(SelectSeq(TLCEval(Elements(e.page, pg, SPAN, ID, 1)), LAMBDA x : LineId(x.v)))
      after == IF sp = <<>> THEN <<>> ELSE Shown(e.page, pg, sp[Len(sp)].to, Len(pg.parts))
  IN /\ Chk(e, "page", pg.ok)
     /\ Chk(e, "lines", Len(sp) = Len(ls))
     /\ \A k \in DOMAIN sp :
          /\ Chk(e, "anchor", sp[k].v = <<76>> \o Digits(k))
          /\ Chk(e, "line", LStrip(sp[k].text) = Digits(k) \o <<32, 32>> \o ls[k] \o <<NL>>)
          /\ Chk(e, "between", k = 1 \/ Shown(e.page, pg, sp[k - 1].to, sp[k].part) = <<>>)
     /\ Chk(e, "after", \A k \in DOMAIN after : Space(after[k]))

(* The page names the parts of its path, each with a link to the directory it stands for. *)
Trail(e) ==
  LET pg == TLCEval(Page(e.page))
      els == TLCEval(Elements(e.page, pg, APOS_A, HREF, 1))
      links == TLCEval([k \in DOMAIN els |-> [p |-> Squeeze(Url(els[k].v).path), t |-> els[k].text]])
      ends == {k \in DOMAIN e.path : e.path[k] # 47 /\ (k = Len(e.path) \/ e.path[k + 1] = 47)}
      From(k) == 1 + (LET B == {j \in 1..k : e.path[j] = 47} IN IF B = {} THEN 0 ELSE Max(B))
  IN \A k \in ends : Chk(e, "trail", \E m \in DOMAIN links : /\ links[m].t = SubSeq(e.path, From(k), k)
                                                           /\ links[m].p = Squeeze(Show \o <<47>> \o BytesOf(SubSeq(e.path, 1, k))))

FileHolds(e) ==
  /\ Chk(e, "status", e.code = 200)
  /\ IF e.page = e.data /\ ~ClearText(e.data) THEN TRUE
     ELSE Chk(e, "unchanged", ~ClearBinary(e.data)) /\ Rendered(e) /\ Trail(e)

(* Large files: the numbers of lines and of spans, some lines, and whether there is nothing else (as the *)
(* recorder found). raw: the response is the file.                                                        *)
BigRendered(e) ==
  /\ Chk(e, "lines", e.nlines = e.nspans)
  /\ Chk(e, "clean", e.clean)
  /\ \A k \in DOMAIN e.samples :
       LET x == e.samples[k]
           want == Digits(x.k) \o <<32, 32>> \o x.line
       IN /\ Chk(e, "anchor", x.id = <<76>> \o Digits(x.k))
          /\ Chk(e, "line", IF x.cut THEN IsPrefixOf(want, LStrip(x.text)) ELSE LStrip(x.text) = want \o <<NL>>)
BigHolds(e) ==
  /\ Chk(e, "status", e.code = 200)
  /\ IF e.raw /\ e.clear # "text" THEN TRUE
     ELSE Chk(e, "unchanged", e.clear # "binary") /\ BigRendered(e)

DirHolds(e) ==
  LET pg == TLCEval(Page(e.page))
      links == TLCEval(Elements(e.page, pg, APOS_A, HREF, 1))
      base == Squeeze(Show \o <<47>> \o BytesOf(e.path) \o <<47>>)
      \* links to what is directly in the directory
      in == TLCEval(SelectSeq([k \in DOMAIN links |-> [p |-> Squeeze(Url(links[k].v).path), t |-> links[k].text]],
                              LAMBDA x : IsPrefixOf(base, x.p) /\ Len(x.p) > Len(base)))
  IN /\ Chk(e, "page", e.code = 200 /\ pg.ok)
     /\ Trail(e)
     /\ Chk(e, "entries", Len(in) = Len(e.entries))
     /\ \A k \in DOMAIN e.entries :
          Chk(e, "entry", \E m \in DOMAIN in : in[m].p = base \o BytesOf(e.entries[k]) /\ in[m].t = e.entries[k])

Verdict(e) == CASE e.kind = "file" -> FileHolds(e)
              [] e.kind = "big" -> BigHolds(e)
              [] e.kind = "dir" -> DirHolds(e)
Next == Judge(Verdict)
=============================================================================
