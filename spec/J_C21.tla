-------------------------------- MODULE J_C21 -------------------------------
(* C21: files written decode to what they should hold, files encoded as      *)
(* documented are read back.                                                 *)
EXTENDS IndexJudge, FormatV2

Lists(ix) ==
  LET T == SortedInts(TrigramsOf(ix)) IN [k \in DOMAIN T |-> [t |-> T[k], ids |-> SortedInts(Posting(ix, T[k]))]]

\* written by the real code
Written(e) ==
  LET ix == IF e.kind = "written" THEN IndexOf(e.roots, e.files, e.contents)
            ELSE LET in == [k \in DOMAIN e.in |-> TLCEval(IndexOf(e.in[k].roots, e.in[k].files, e.contents))]
                 IN MergeIndex(in[1], in[2])
      d == Decode(e.bytes)
  IN /\ Chk(e, "decodes", d.ok)
     /\ Chk(e, "roots", d.roots = ix.roots)
     /\ Chk(e, "names", d.names = Names(ix))
     /\ Chk(e, "postings", SelectSeq(d.lists, LAMBDA l : l.ids # <<>>) = Lists(ix))   \* (merges record empty lists)

\* encoded by the specification or by the driver: first of all, is it encoded as documented?
Read(e) ==
  LET d == Decode(e.bytes) IN
  /\ Chk(e, "encoding", d.ok /\ d.roots = e.roots /\ d.names = e.names /\ d.lists = e.posts)
  /\ Chk(e, "roots", e.got.roots = e.roots)
  /\ Chk(e, "names", e.got.names = e.names)
  /\ Chk(e, "name", e.got.byid = e.names)
  /\ Chk(e, "postings", \A k \in DOMAIN e.got.posts :
             LET g == e.got.posts[k]
                 S == {j \in DOMAIN e.posts : e.posts[j].t = g.t}
             IN IF S = {} THEN g.ids = <<>> ELSE \A j \in S : g.ids = e.posts[j].ids)
  /\ Chk(e, "all", \A j \in DOMAIN e.posts : \E k \in DOMAIN e.got.posts : e.got.posts[k].t = e.posts[j].t)

\* deltas of any magnitude, through the coder alone
Gamma(e) ==
  /\ Chk(e, "encoded", e.enc = DeltasEnc(e.deltas))
  /\ Chk(e, "decoded", e.dec = e.deltas)

\* sections more than 4 GB apart
Entry(e, k) == [t |-> e.posts[k].t, count |-> Len(e.posts[k].ids), off |-> e.posts[k].off]
Sparse(e) ==
  /\ Chk(e, "trailer", Slice(e.trailer, 64, 16) = TRAILER /\ [k \in 1..8 |-> BitsAtU64(e.trailer, 8 * (k - 1))] = e.fields)
  /\ LET r == PathsAt(e.rootsB, 0, Len(e.roots), FALSE, <<>>, <<>>)
         n == PathsAt(e.namesB, 0, Len(e.names), TRUE, <<>>, <<>>)
         x == EntriesAt(e.indexB, 0, <<>>, <<>>)
     IN /\ Chk(e, "encoding", r.ok /\ n.ok /\ x.ok /\ r.paths = e.roots /\ n.paths = e.names
                 /\ SelectSeq(x.ents, LAMBDA y : y.t # LastTrigram) = [k \in DOMAIN e.posts |-> Entry(e, k)]
                 /\ \A k \in DOMAIN e.posts : TriAt(e.posts[k].b, 0) = e.posts[k].t /\ IdsAt(e.posts[k].b, 24, -1, <<>>).ids = e.posts[k].ids)
        /\ Chk(e, "names", e.got.roots = e.roots /\ e.got.names = e.names)
        /\ Chk(e, "postings", e.got.posts = [k \in DOMAIN e.posts |-> [t |-> e.posts[k].t, ids |-> e.posts[k].ids]])

\* the posting index written for lists far apart
Far(e) ==
  LET x == EntriesAt(e.indexB, 0, <<>>, <<>>) IN
  /\ Chk(e, "blocks", (Len(e.indexB) % Block) = 0)
  /\ Chk(e, "entries", x.ok /\ x.ents = e.entries)

Verdict(e) ==
  CASE e.kind \in {"written", "written-merge"} -> Written(e)
    [] e.kind = "read" -> Read(e)
    [] e.kind = "gamma" -> Gamma(e)
    [] e.kind = "sparse" -> Sparse(e)
    [] e.kind = "far" -> Far(e)
    [] OTHER -> FALSE

Next == Judge(Verdict)
=============================================================================
