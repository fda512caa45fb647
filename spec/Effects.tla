------------------------------- MODULE Effects ------------------------------
(* What the commands may change (C28). The state of the world outside the    *)
(* commands is [tree, index, left]:                                          *)
(*   tree: a function from paths to stamps; a stamp stands for everything    *)
(*     there is to know of a node (kind, mode, times, contents, inode),      *)
(*   index: the stamp of the index file, 0 if there is none,                 *)
(*   left: what else there is in the directory of the index and in the one   *)
(*     for temporary files.                                                  *)
EXTENDS CodeSearch

(* Users change the tree, and nothing else. *)
Edit(s, t) == t.index = s.index /\ t.left = s.left

(* Commands that read. *)
Reads(s, t) == t = s

(* cindex brings an index about, or removes it, and cleans up behind itself. *)
Indexes(s, t) == t.tree = s.tree /\ t.left = {} /\ t.index # 0
Resets(s, t) == t.tree = s.tree /\ t.left = {} /\ t.index = 0

Step(o, s, t) ==
  CASE o.op \in {"put", "del", "move"} -> Edit(s, t)
    [] o.op = "run" -> IF o.reset /\ o.args = <<>> THEN Resets(s, t) ELSE Indexes(s, t)
    [] OTHER -> Reads(s, t)

(* The tree is the one that CodeSearch says it is. *)
TreeIs(tree, fs) == DOMAIN tree = DOMAIN fs
=============================================================================
