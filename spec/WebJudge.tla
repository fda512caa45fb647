------------------------------ MODULE WebJudge ------------------------------
(* The pages of csweb. *)
EXTENDS JudgeBase, GrepSpec, Html

CodesOf(runs) == FlattenSeq([k \in DOMAIN runs |-> [m \in 1..runs[k][2] |-> runs[k][1]]])
Show == <<47, 115, 104, 111, 119>>
NameMatches(e, name) == LineMatches(e.fre, name, [bot |-> TRUE, eot |-> TRUE], Flags(e.forbits))
Chosen(e) == IF "fre" \in DOMAIN e THEN SelectSeq(e.files, LAMBDA f : NameMatches(e, f.name)) ELSE e.files

(* shown starts with want and goes on with a number *)
MatchesText == <<32, 109, 97, 116, 99, 104, 101, 115>> \* " matches"

(* text begins with an empty line and the count; then it says that there are more matches if there are *)
CountAndNote(e, text, n, more) ==
  LET count == <<NL>> \o Digits(n) \o MatchesText
      rest == SubSeq(text, Len(count) + 1, Len(text))
      nl == SelectInSeq(rest, LAMBDA c : c = NL)
      after == SubSeq(rest, nl + 1, Len(rest))
  IN /\ Chk(e, "count", IsPrefixOf(count, text))
     /\ Chk(e, "more", nl # 0 /\ ((\E k \in DOMAIN after : Letter(after[k])) <=> more))

Plain(n) == \A k \in DOMAIN n : n[k] # 1

(* The page for a search: after <pre>, the lines as csearch -n prints them, each with a link to it, and a count. *)
ResultsHold(e) ==
  LET pg == TLCEval(Page(e.page))
      pres == {j \in DOMAIN pg.parts : Opens(pg, j, PRE)}
      o == [n |-> TRUE, h |-> FALSE, c |-> FALSE, l |-> FALSE, pre |-> 0, post |-> 0, limit |-> e.limit]
      files == Chosen(e)
      want == TLCEval(Search(o, e.re, e.orbits, e.tab, e.caprun, files))
      T == TLCEval(Table(e.re, e.orbits, e.tab, e.caprun))
      \* the matches one by one
      ms == TLCEval(FlattenSeq([m \in DOMAIN files |-> LET nos == TLCEval(MatchNos(T, files[m]))
                                                       IN [x \in DOMAIN nos |-> <<files[m].name, nos[x]>>]]))
      lines == TLCEval(CodesOf(want.out))
      from == Min(pres)
      all == TLCEval(Shown(e.page, pg, from, Len(pg.parts)))
      \* browsers drop a newline that follows <pre> at once; the page may or may not have one
      body == IF lines # <<>> /\ all # <<>> /\ all[1] = NL /\ lines[1] # NL THEN Tail(all)
              ELSE IF all # <<>> /\ all[1] = NL /\ lines = <<>> /\ Len(all) > 1 /\ all[2] = NL THEN Tail(all) ELSE all
      links == TLCEval(Elements(e.page, pg, APOS_A, HREF, from))
  IN /\ Chk(e, "page", e.code = 200 /\ pg.ok /\ pres # {})
     /\ Chk(e, "lines", IsPrefixOf(lines, body))
     /\ CountAndNote(e, SubSeq(body, Len(lines) + 1, Len(body)), want.matches, want.limited)
     /\ Chk(e, "links", Len(links) = want.matches)
     /\ \A k \in DOMAIN links :
          LET u == Url(links[k].v)
              nm == ms[k][1]
          IN /\ Chk(e, "link text", links[k].text = nm \o <<58>> \o Digits(ms[k][2]))
             /\ Plain(nm) => Chk(e, "link", u.frag = <<76>> \o Digits(ms[k][2]) /\ Squeeze(u.path) = Squeeze(Show \o <<47>> \o BytesOf(nm)))

ErrorHolds(e) ==
  LET pg == TLCEval(Page(e.page))
      pres == {j \in DOMAIN pg.parts : Opens(pg, j, PRE)}
      from == Min(pres)
  IN /\ Chk(e, "page", pg.ok /\ pres # {})
     /\ Chk(e, "results", Elements(e.page, pg, APOS_A, HREF, from) = <<>>)
     /\ Chk(e, "message", \E k \in DOMAIN Shown(e.page, pg, from, Len(pg.parts)) : Letter(Shown(e.page, pg, from, Len(pg.parts))[k]))

(* A search of so many lines that the limit matters, in numbers. *)
LimitHolds(e) ==
  LET shown == IF e.total > e.limit THEN e.limit ELSE e.total
  IN /\ Chk(e, "shown", e.links = shown /\ e.same)
     /\ CountAndNote(e, e.rest, shown, e.total > e.limit)

WebHolds(e) == CASE e.kind = "results" -> ResultsHold(e)
               [] e.kind = "bad" -> ErrorHolds(e)
               [] e.kind = "limit" -> LimitHolds(e)
=============================================================================
