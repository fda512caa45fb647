-------------------------------- MODULE J_C09 -------------------------------
(* C09: truncated files are refused; the check accepts exactly the sound.    *)
EXTENDS IndexJudge, FormatV2

\* the file after the changes [off, b]
Changed(b, ch) == FoldLeft(LAMBDA x, c : [x EXCEPT ![c.off + 1] = c.b], b, ch)

Verdict(e) ==
  CASE e.kind = "truncated" -> Chk(e, "refused", \A k \in DOMAIN e.cuts : e.cuts[k].len < e.size => e.cuts[k].refused)
    [] e.kind = "built" -> Chk(e, "accepted", e.check = "ok")
    [] e.kind = "altered" ->
         /\ Chk(e, "original", Decode(e.bytes).ok /\ Soundness(e.bytes) = "yes" /\ e.check = "ok")
         /\ \A k \in DOMAIN e.changes :
              LET c == e.changes[k]
                  s == Soundness(Changed(e.bytes, c.at))
              IN Chk(e, "change " \o ToString(k), s = "no" => c.check # "ok")
    [] OTHER -> FALSE

Next == Judge(Verdict)
=============================================================================
