-------------------------------- MODULE J_C30 -------------------------------
(* C30: what csearch -html prints shows the results of csearch -n, as links. *)
EXTENDS WebJudge

HtmlOutput(e) ==
  LET pg == TLCEval(Page(e.page))
      o == [e.opts EXCEPT !.n = TRUE]
      files == Chosen(e)
      want == TLCEval(Search(o, e.re, e.orbits, e.tab, e.caprun, files))
      T == TLCEval(Table(e.re, e.orbits, e.tab, e.caprun))
      links == TLCEval(Elements(e.page, pg, APOS_A, HREF, 1))
      \* [name, what the link says, fragment] of each result
      Of(f) == LET nos == TLCEval(MatchNos(T, f)) IN
               IF nos = <<>> THEN <<>>
               ELSE IF o.l \/ o.c THEN <<[n |-> f.name, t |-> f.name, f |-> <<>>]>>
               ELSE [x \in DOMAIN nos |-> [n |-> f.name, t |-> f.name \o <<58>> \o Digits(nos[x]), f |-> <<76>> \o Digits(nos[x])]]
      rs == TLCEval(FlattenSeq([m \in DOMAIN files |-> Of(files[m])]))
  IN /\ Chk(e, "status", e.exit = (IF want.any THEN 0 ELSE 1))
     /\ Chk(e, "page", pg.ok)
     /\ Chk(e, "tags", \A j \in DOMAIN pg.parts : LET x == pg.parts[j] IN x.tag =>
          x.name = APOS_A /\ (x.close \/ (Len(x.attrs) = 1 /\ x.attrs[1].n = HREF)))
     /\ Chk(e, "shown", Shown(e.page, pg, 1, Len(pg.parts)) = CodesOf(want.out))
     /\ (o.l \/ o.c \/ o.pre + o.post = 0) =>
          /\ Chk(e, "links", Len(links) = Len(rs))
          /\ \A k \in DOMAIN links :
               LET u == Url(links[k].v) IN
               /\ Chk(e, "link text", links[k].text = rs[k].t)
               /\ Plain(rs[k].n) => Chk(e, "link", u.frag = rs[k].f /\ Squeeze(u.path) = Squeeze(Show \o <<47>> \o BytesOf(rs[k].n)))

Next == Judge(HtmlOutput)
=============================================================================
