------------------------------ MODULE FormatV2 ------------------------------
(* The documented on-disk format: Encode and Decode on byte sequences.       *)
(* Positions count bytes from 0. Numbers that may exceed 31 bits are bit     *)
(* sequences, least significant first, without leading zeros.                *)
EXTENDS IndexModel

HEADER  == <<99, 115, 101, 97, 114, 99, 104, 32, 105, 110, 100, 101, 120, 32, 50, 10>>        \* "csearch index 2\n"
TRAILER == <<10, 99, 115, 101, 97, 114, 99, 104, 32, 116, 114, 108, 114, 32, 50, 10>>          \* "\ncsearch trlr 2\n"
Group == 16
Block == 256
LastTrigram == 16777215

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
Slice(b, off, n) == SubSeq(b, off + 1, off + n)

----------------------------------------------------------------------------
(* numbers *)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o Bits(n \div 2)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE IntOf(_)
IntOf(s) == IF s = <<>> THEN 0 ELSE s[1] + 2 * IntOf(Tail(s))
RECURSIVE AddBits(_, _, _)
AddBits(x, y, c) ==
  IF x = <<>> /\ y = <<>> THEN (IF c = 1 THEN <<1>> ELSE <<>>)
  ELSE LET s == (IF x = <<>> THEN 0 ELSE x[1]) + (IF y = <<>> THEN 0 ELSE y[1]) + c
       IN <<s % 2>> \o AddBits(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y), s \div 2)
\* x - 1, for x > 0
RECURSIVE Dec1(_)
Dec1(x) == IF x[1] = 1 THEN <<0>> \o Tail(x) ELSE <<1>> \o Dec1(Tail(x))

U64(n) == [k \in 1..8 |-> IF k <= 4 THEN 0 ELSE (n \div (IF k = 5 THEN 16777216 ELSE IF k = 6 THEN 65536 ELSE IF k = 7 THEN 256 ELSE 1)) % 256]
BitsAtU64(b, off) == Strip(FlattenSeq([k \in 1..8 |-> [j \in 1..8 |-> (b[off + 9 - k] \div Pow2[j]) % 2]]))

RECURSIVE Uvarint(_)
Uvarint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Uvarint(n \div 128)
\* [bits, next]; next = -1 if there is none
RECURSIVE UvarintAt(_, _)
UvarintAt(b, p) ==
  IF p >= Len(b) THEN [bits |-> <<>>, next |-> -1]
  ELSE LET x == b[p + 1]
           low == [j \in 1..7 |-> (x \div Pow2[j]) % 2]
       IN IF x < 128 THEN [bits |-> low, next |-> p + 1]
          ELSE LET r == UvarintAt(b, p + 1) IN [bits |-> low \o r.bits, next |-> r.next]
\* small ones; v = -1 for those that are not
IntAt(b, p) ==
  IF p < Len(b) /\ b[p + 1] < 128 THEN [v |-> b[p + 1], next |-> p + 1]
  ELSE LET u == UvarintAt(b, p)
           s == Strip(u.bits)
       IN [v |-> IF u.next >= 0 /\ Len(s) < 31 THEN IntOf(s) ELSE -1, next |-> u.next]

----------------------------------------------------------------------------
(* deltas: Elias gamma codes, least significant bit of a byte first; the     *)
(* value's low bits follow in the same order. 0 is coded as 16, v >= 16 as   *)
(* v + 1.                                                                    *)
Zeros(n) == [k \in 1..n |-> 0]
GammaBits(bits) == Zeros(Len(bits) - 1) \o <<1>> \o SubSeq(bits, 1, Len(bits) - 1)
Sixteen == <<0, 0, 0, 0, 1>>
DeltaCode(bits) ==          \* the coded value of a delta, both as bits
  IF bits = <<>> THEN Sixteen
  ELSE IF Len(bits) >= 5 THEN AddBits(bits, <<1>>, 0) ELSE bits
DeltaValue(code) == IF code = Sixteen THEN <<>> ELSE IF Len(code) >= 5 THEN Strip(Dec1(code)) ELSE code
ToBytes(bits) ==
  [k \in 1..((Len(bits) + 7) \div 8) |->
     LET at(j) == IF 8 * (k - 1) + j <= Len(bits) THEN bits[8 * (k - 1) + j] * Pow2[j] ELSE 0
     IN at(1) + at(2) + at(3) + at(4) + at(5) + at(6) + at(7) + at(8)]
DeltasEnc(deltas) == ToBytes(FlattenSeq([k \in DOMAIN deltas |-> GammaBits(DeltaCode(deltas[k]))]))

BitAt(b, p) == (b[(p \div 8) + 1] \div Pow2[(p % 8) + 1]) % 2
\* the delta at bit p: [bits, next]; next = -1 if there is none
RECURSIVE FirstOne(_, _)
FirstOne(b, p) == IF p >= 8 * Len(b) THEN -1
                  ELSE IF p % 8 = 0 /\ b[(p \div 8) + 1] = 0 THEN FirstOne(b, p + 8)
                  ELSE IF BitAt(b, p) = 1 THEN p ELSE FirstOne(b, p + 1)
DeltaAt(b, p) ==
  LET o == FirstOne(b, p)
      n == o - p
  IN IF o < 0 \/ n > 62 \/ o + n >= 8 * Len(b) THEN [bits |-> <<>>, next |-> -1]
     ELSE [bits |-> DeltaValue([k \in 1..(n + 1) |-> IF k = n + 1 THEN 1 ELSE BitAt(b, o + k)]), next |-> o + 1 + n]

(* ids of the list whose deltas start at byte p: [ids, next] *)
RECURSIVE IdsAt(_, _, _, _)
IdsAt(b, p, id, acc) ==
  LET d == DeltaAt(b, p) IN
  IF d.next < 0 \/ Len(d.bits) > 30 THEN [ids |-> acc, next |-> -1]
  ELSE IF d.bits = <<>> THEN [ids |-> acc, next |-> (d.next + 7) \div 8]
  ELSE LET x == id + IntOf(d.bits) IN IdsAt(b, d.next, x, Append(acc, x))

TriAt(b, p) == b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
TriBytes(t) == <<t \div 65536, (t \div 256) % 256, t % 256>>

----------------------------------------------------------------------------
(* lists of paths *)
CommonPrefix(p, q) ==
  LET n == Min({Len(p), Len(q)})
      D == {k \in 1..n : p[k] # q[k]}
  IN IF D = {} THEN n ELSE Min(D) - 1
PathEnc(prev, p) == LET k == CommonPrefix(prev, p) IN Uvarint(k) \o Uvarint(Len(p) - k) \o SubSeq(p, k + 1, Len(p))
\* the encodings of the paths, one by one
PathsEnc(paths, grouped) ==
  [k \in DOMAIN paths |-> PathEnc(IF k = 1 \/ (grouped /\ k % Group = 1) THEN <<>> ELSE paths[k - 1], paths[k])]

\* n paths from byte p on: [ok, paths, offs, next]
RECURSIVE PathsAt(_, _, _, _, _, _)
PathsAt(b, p, n, grouped, paths, offs) ==
  IF n = 0 THEN [ok |-> TRUE, paths |-> paths, offs |-> offs, next |-> p]
  ELSE LET pre == IntAt(b, p)
           len == IntAt(b, pre.next)
           prev == IF paths = <<>> THEN <<>> ELSE paths[Len(paths)]
           first == grouped /\ (Len(paths) % Group) = 0
       IN IF \/ pre.next < 0 \/ pre.v < 0 \/ len.next < 0 \/ len.v < 0
             \/ pre.v > Len(prev) \/ len.next + len.v > Len(b)
             \/ (first /\ pre.v # 0)
          THEN [ok |-> FALSE, paths |-> paths, offs |-> offs, next |-> p]
          ELSE PathsAt(b, len.next + len.v, n - 1, grouped,
                       Append(paths, SubSeq(prev, 1, pre.v) \o Slice(b, len.next, len.v)),
                       IF first THEN Append(offs, p) ELSE offs)

----------------------------------------------------------------------------
(* the posting list index: [t, count, off] for each entry, off as bits       *)
RECURSIVE EntriesAt(_, _, _, _)
EntriesAt(b, p, base, acc) ==
  LET limit == ((p \div Block) + 1) * Block IN
  IF p >= Len(b) THEN [ok |-> TRUE, ents |-> acc]
  ELSE IF limit - p < 3 \/ TriAt(b, p) = 0
  THEN \* padding
       IF \A k \in (p + 1)..limit : b[k] = 0 THEN EntriesAt(b, limit, <<>>, acc) ELSE [ok |-> FALSE, ents |-> acc]
  ELSE LET c == IntAt(b, p + 3)
           o == UvarintAt(b, c.next)
           off == Strip(AddBits(base, o.bits, 0))
       IN IF c.next < 0 \/ c.v < 0 \/ o.next < 0 \/ o.next > limit THEN [ok |-> FALSE, ents |-> acc]
          ELSE EntriesAt(b, o.next, IF o.next = limit THEN <<>> ELSE off, Append(acc, [t |-> TriAt(b, p), count |-> c.v, off |-> off]))
\* (base starts at 0 in every block)

(* the posting lists one after the other up to the last one *)
RECURSIVE ListsAt(_, _, _)
ListsAt(b, p, acc) ==
  IF p + 3 > Len(b) THEN [ok |-> FALSE, lists |-> acc, next |-> p]
  ELSE LET l == IdsAt(b, 8 * (p + 3), -1, <<>>)
           t == TriAt(b, p)
       IN IF l.next < 0 THEN [ok |-> FALSE, lists |-> acc, next |-> p]
          ELSE LET a == Append(acc, [t |-> t, ids |-> l.ids, off |-> p])
               IN IF t = LastTrigram THEN [ok |-> l.ids = <<>>, lists |-> a, next |-> l.next]
                  ELSE ListsAt(b, l.next, a)

----------------------------------------------------------------------------
(* whole files *)
Trailer8(b, k) == BitsAtU64(b, Len(b) - 80 + 8 * (k - 1))
Small(bits) == Len(bits) < 31

Decode(b) ==
  LET bad == [ok |-> FALSE] IN
  IF Len(b) < 96 \/ Slice(b, Len(b) - 16, 16) # TRAILER \/ SubSeq(b, 1, 16) # HEADER \/ \E k \in 1..8 : ~Small(Trailer8(b, k)) THEN bad
  ELSE LET f == TLCEval([k \in 1..8 |-> IntOf(Trailer8(b, k))])
           end == Len(b) - 80
       IN IF ~(16 <= f[1] /\ f[1] <= f[3] /\ f[3] <= f[5] /\ f[5] <= f[7] /\ f[7] <= f[8] /\ f[8] <= end /\ ((end - f[8]) % Block) = 0) THEN bad
          ELSE LET roots == PathsAt(Slice(b, f[1], f[3] - f[1]), 0, f[2], FALSE, <<>>, <<>>)
                   names == PathsAt(Slice(b, f[3], f[5] - f[3]), 0, f[4], TRUE, <<>>, <<>>)
                   lists == ListsAt(Slice(b, f[5], f[7] - f[5]), 0, <<>>)
                   ents  == EntriesAt(Slice(b, f[8], end - f[8]), 0, <<>>, <<>>)
                   nidx  == [k \in 1..Len(names.offs) |-> BitsAtU64(b, f[7] + 8 * (k - 1))]
                   real  == SelectSeq(lists.lists, LAMBDA l : l.t # LastTrigram)
                   rents == SelectSeq(ents.ents, LAMBDA e : e.t # LastTrigram)
               IN IF ~(roots.ok /\ names.ok /\ lists.ok /\ ents.ok /\ f[7] + 8 * Len(nidx) <= f[8]) THEN bad
                  ELSE [ok |-> /\ nidx = [k \in DOMAIN names.offs |-> Bits(names.offs[k])]
                               /\ f[6] = Len(lists.lists)
                               /\ rents = [k \in DOMAIN real |-> [t |-> real[k].t, count |-> Len(real[k].ids), off |-> Bits(real[k].off)]]
                               /\ \A k \in DOMAIN ents.ents : ents.ents[k].t = LastTrigram =>
                                    ents.ents[k].count = 0 /\ k = Len(ents.ents)
                               /\ \A k \in 1..(Len(real) - 1) : real[k].t < real[k + 1].t,
                        roots |-> roots.paths, names |-> names.paths, lists |-> [k \in DOMAIN real |-> [t |-> real[k].t, ids |-> real[k].ids]]]

Pad16(n) == Zeros((16 - (n % 16)) % 16)

\* posts: sequence of [t, ids], sorted by t, without the last one; withLast: whether that has an entry in the index
PostsEnc(posts) ==
  LET deltas(ids) == [k \in 1..(Len(ids) + 1) |-> IF k > Len(ids) THEN <<>> ELSE Bits(ids[k] - (IF k = 1 THEN -1 ELSE ids[k - 1]))]
  IN [k \in DOMAIN posts |-> TriBytes(posts[k].t) \o DeltasEnc(deltas(posts[k].ids))]
Sums(encs) == \* offsets of the pieces
  FoldLeft(LAMBDA a, e : Append(a, a[Len(a)] + Len(e)), <<0>>, encs)
PostIndexEnc(posts, offs) ==
  LET add(b, k) ==
        LET used == Len(b) % Block
            \* base of the current block: the offset of its last entry
            ent(base) == TriBytes(posts[k].t) \o Uvarint(Len(posts[k].ids)) \o Uvarint(offs[k] - base)
            here == ent(offs[IF k = 1 THEN 1 ELSE k - 1])
        IN IF used # 0 /\ used + Len(here) <= Block THEN b \o here
           ELSE b \o Zeros((Block - used) % Block) \o ent(0)
      all == FoldLeft(add, <<>>, [k \in DOMAIN posts |-> k])
  IN all \o Zeros((Block - (Len(all) % Block)) % Block)

Encode(ix, aligned) ==
  LET P(n) == IF aligned THEN Pad16(n) ELSE <<>>
      posts == Append(ix.lists, [t |-> LastTrigram, ids |-> <<>>])
      nm == PathsEnc(ix.names, TRUE)
      noffs == Sums(nm)
      pl == PostsEnc(posts)
      s1 == HEADER
      s2 == s1 \o FlattenSeq(PathsEnc(ix.roots, FALSE))
      o2 == s2 \o P(Len(s2))
      s3 == o2 \o FlattenSeq(nm)
      o3 == s3 \o P(Len(s3))
      s4 == o3 \o FlattenSeq(pl)
      o4 == s4 \o P(Len(s4))
      s5 == o4 \o FlattenSeq([k \in 1..((Len(nm) + Group - 1) \div Group) |-> U64(noffs[Group * (k - 1) + 1])])
      o5 == s5 \o P(Len(s5))
      s6 == o5 \o PostIndexEnc(posts, Sums(pl))
  IN s6 \o U64(16) \o U64(Len(ix.roots)) \o U64(Len(o2)) \o U64(Len(ix.names)) \o U64(Len(o3)) \o U64(Len(posts)) \o U64(Len(o4)) \o U64(Len(o5)) \o TRAILER

----------------------------------------------------------------------------
(* Soundness of the posting lists as the index check is to establish it: for *)
(* every entry of the posting index, the list at its offset starts with the  *)
(* trigram, holds as many ids as claimed and is then terminated.             *)
(* "yes", "no", or "free" for a posting index that is itself malformed.      *)
RECURSIVE ListSound(_, _, _)
ListSound(b, p, count) ==
  LET d == DeltaAt(b, p) IN
  IF d.next < 0 THEN FALSE
  ELSE IF count = 0 THEN d.bits = <<>>
  ELSE d.bits # <<>> /\ ListSound(b, d.next, count - 1)
Soundness(b) ==
  LET f == TLCEval([k \in 1..8 |-> IntOf(Trailer8(b, k))])
      end == Len(b) - 80
      data == Slice(b, f[5], f[7] - f[5])
      ents == EntriesAt(Slice(b, f[8], end - f[8]), 0, <<>>, <<>>)
  IN IF ~ents.ok THEN "free"
     ELSE IF \A k \in DOMAIN ents.ents :
               LET e == ents.ents[k]
                   off == IntOf(e.off)
               IN /\ Len(e.off) < 31
                  /\ off + 3 <= Len(data)
                  /\ TriAt(data, off) = e.t
                  /\ ListSound(data, 8 * (off + 3), e.count)
     THEN "yes" ELSE "no"
=============================================================================
