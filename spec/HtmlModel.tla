------------------------------ MODULE HtmlModel -----------------------------
(* The pages of csweb as templates with holes for data: whatever the data,   *)
(* escaping keeps the structure of the page, and the reader sees the data.   *)
(* Data are all strings over Sigma of at most N characters, built one        *)
(* character at a time in two holes (a quoted attribute and a text).         *)
EXTENDS Html
CONSTANTS Sigma, N, Escaped \* the characters that are escaped

VARIABLES d1, d2

Esc(s) == FlattenSeq([k \in DOMAIN s |-> IF s[k] \notin Escaped THEN <<s[k]>>
             ELSE <<Amp, 35>> \o Digits(s[k]) \o <<59>>])
\* <a href="/D1">D2</a>D2 &lt;
Template(x, y) == <<60, 97, 32>> \o HREF \o <<61, 34, 47>> \o Esc(x) \o <<34, 62>> \o Esc(y) \o <<60, 47, 97, 62>> \o Esc(y) \o <<32, 38, 108, 116, 59>>

Init == d1 = <<>> /\ d2 = <<>>
Next == \/ Len(d1) < N /\ \E c \in Sigma : d1' = Append(d1, c) /\ UNCHANGED d2
        \/ Len(d2) < N /\ \E c \in Sigma : d2' = Append(d2, c) /\ UNCHANGED d1

Harmless(s) == [k \in DOMAIN s |-> 120]
SameStructure ==
  LET a == Page(Template(d1, d2))
      b == Page(Template(Harmless(d1), Harmless(d2)))
  IN a.ok /\ b.ok /\ Structure(a) = Structure(b)
ShowsData ==
  LET p == Template(d1, d2)
      pg == Page(p)
      el == Elements(p, pg, APOS_A, HREF, 1)
  IN /\ Len(el) = 1 /\ el[1].v = <<47>> \o d1 /\ el[1].text = d2
     /\ Shown(p, pg, 1, Len(pg.parts)) = d2 \o d2 \o <<32, 60>>
=============================================================================
