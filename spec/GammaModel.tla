----------------------------- MODULE GammaModel -----------------------------
(* The delta code is uniquely decodable: any sequence of deltas, then zero,  *)
(* decodes to itself, also when followed by other bytes; the same for        *)
(* varints. Values of all magnitudes around powers of two.                   *)
EXTENDS FormatV2

CONSTANTS MaxSmall, Pows, Len3

Near(p) == {[k \in 1..(p + 1) |-> IF k = p + 1 THEN 1 ELSE 0],
            [k \in 1..p |-> 1],
            [k \in 1..(p + 1) |-> IF k \in {1, p + 1} THEN 1 ELSE 0]}
Values == {Bits(x) : x \in 1..MaxSmall} \cup UNION {Near(p) : p \in Pows}
VARIABLES a, b, c, ph
Init == ph = 0 /\ a \in Values /\ b \in Values /\ c \in IF Len3 THEN {Bits(x) : x \in 1..MaxSmall} ELSE {<<1>>, Bits(15), Bits(16)}
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<a, b, c>>   \* (so that the invariants are evaluated in parallel)

Enc == DeltasEnc(<<a, b, c, <<>>>>) \o <<255>>
Decodes == ph = 1 =>
  LET d1 == DeltaAt(Enc, 0)
      d2 == DeltaAt(Enc, d1.next)
      d3 == DeltaAt(Enc, d2.next)
      d4 == DeltaAt(Enc, d3.next)
  IN /\ d1.bits = a /\ d2.bits = b /\ d3.bits = c /\ d4.bits = <<>>
     /\ (d4.next + 7) \div 8 = Len(Enc) - 1
NotZero == ph = 1 => (DeltaCode(a) # DeltaCode(<<>>) /\ DeltaValue(DeltaCode(a)) = a)
Order == ph = 1 => (Len(a) < 25 /\ Len(b) < 25 => ((a = b) <=> (DeltaCode(a) = DeltaCode(b))) /\ IntOf(Bits(IntOf(a))) = IntOf(a))
Varints == ph = 1 => (Len(a) < 29 => IntAt(Uvarint(IntOf(a)) \o <<7>>, 0) = [v |-> IntOf(a), next |-> Len(Uvarint(IntOf(a)))])
=============================================================================
