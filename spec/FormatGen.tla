------------------------------ MODULE FormatGen -----------------------------
(* Index files made by the specification: indexes grow step by step, are     *)
(* encoded, and handed to the real reader. On the way, Decode must undo      *)
(* Encode (C21).                                                             *)
EXTENDS FormatV2, Json, Randomization

CONSTANTS NameCounts, Emit

\* names of three shapes over the first numbers, already in order
D2(k) == <<48 + (k \div 10), 48 + (k % 10)>>
NameOf(k, shape) ==
  CASE shape = 1 -> <<47, 97>> \o D2(k)
    [] shape = 2 -> <<47, 98, 47, 99>> \o D2(k) \o [j \in 1..(((k * 37) % 19) * 8) |-> 120]
    [] shape = 3 -> <<47>> \o [j \in 1..((k \div 16) + 1) |-> 97] \o <<32 + (k % 16)>>
    [] shape = 4 -> <<47, 122>> \o D2(k) \o (IF k % 3 = 0 THEN <<46, 122, 105, 112, 1, 97>> ELSE <<200, 255>>)

VARIABLES n, shape, roots, lists, aligned, phase, data

Init == /\ n \in NameCounts /\ shape \in 1..4 /\ aligned \in BOOLEAN
        /\ roots \in {<<>>, <<<<47>>>>, <<<<47, 97>>, <<47, 97, 46>>, <<47, 98>>>>}
        /\ lists = <<>> /\ phase = "lists" /\ data = <<>>

LastT == IF lists = <<>> THEN 0 ELSE lists[Len(lists)].t
Strides == {1, 2, 3, 14, 15, 16, 17, 31, 32, 33}
\* another list: files from a on, with a stride
AddList == /\ phase = "lists" /\ Len(lists) < 90 /\ n > 0
           /\ \E gap \in {1, 255, 65536}, a \in {0, 1, 14, 15, 16, 17, n - 1}, s \in Strides, many \in 1..3 :
                /\ a >= 0 /\ a < n /\ LastT + gap < LastTrigram
                \* bunches of lists, so that index blocks fill up
                /\ lists' = lists \o [k \in 1..(many * many * many) |-> [t |-> LastT + gap + k - 1,
                               ids |-> LET m == (n - a - 1) \div (s + k - 1) IN [j \in 1..(m + 1) |-> a + (j - 1) * (s + k - 1)]]]
           /\ UNCHANGED <<n, shape, roots, aligned, phase, data>>

Obj == LET names == Sorted({NameOf(k, shape) : k \in 0..(n - 1)}) IN [roots |-> roots, names |-> names, lists |-> lists]
Finish == /\ phase = "lists" /\ phase' = "done"
          /\ data' = Encode(Obj, aligned)
          /\ Emit => PrintT("GEN " \o ToJson([roots |-> roots, names |-> Obj.names, posts |-> lists, bytes |-> data']))
          /\ UNCHANGED <<n, shape, roots, lists, aligned>>
Next == AddList \/ Finish

Undone == phase = "done" =>
  LET d == Decode(data) IN d.ok /\ d.roots = roots /\ d.names = Obj.names /\ d.lists = lists
SoundToo == phase = "done" => Soundness(data) = "yes"
=============================================================================
