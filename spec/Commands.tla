------------------------------ MODULE Commands ------------------------------
(* Which index a command works on, and what becomes of all the indexes there *)
(* are (C31). Places are sequences of names from a common top.               *)
(*                                                                           *)
(* The state is [fs, dirs, ixs]:                                             *)
(*   fs: the tree that is indexed (CodeSearch),                              *)
(*   dirs: a function from the places of directories to "rw" or "ro",        *)
(*   ixs: a function from the places where there is an index to [st, index]. *)
(*     st is "sound"; "bad" if something is wrong inside that only a check   *)
(*     finds; "cut" if it is not all there.                                  *)
(*                                                                           *)
(* A command o has: cwd, home (places), named (CSEARCHINDEX is set and not   *)
(* empty), abs, ix (the path it has), and its flags and arguments.           *)
EXTENDS CodeSearch

None == [st |-> "none", index |-> NoIndex]
At(s, L) == IF L \in DOMAIN s.ixs THEN s.ixs[L] ELSE None

(* a path in a directory; there are no links *)
Resolve(cwd, p) ==
  FoldLeft(LAMBDA a, x : IF x \in {"", "."} THEN a
                         ELSE IF x = ".." THEN (IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1))
                         ELSE Append(a, x), cwd, p)

Location(o) ==
  IF o.named THEN Resolve(IF o.abs THEN <<>> ELSE o.cwd, o.ix) ELSE Resolve(o.home, <<".csearchindex">>)

DirOf(L) == SubSeq(L, 1, Len(L) - 1)
Writable(s, L) == DirOf(L) \in DOMAIN s.dirs /\ s.dirs[DirOf(L)] = "rw"

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* What a command does: [ok, out, ixs]. Commands that fail print no results. *)
Fails(s) == [ok |-> FALSE, out |-> {}, ixs |-> s.ixs]

(* cindex that is given the flags list, reset and check, other flags that only report, and paths *)
Cindex(env, s, o) ==
  LET L == Location(o)
      I == At(s, L)
      args == Range(o.args)
  IN IF o.usage THEN Fails(s)
     ELSE IF o.list THEN (IF I.st = "sound" THEN [ok |-> TRUE, out |-> Range(I.index.roots), ixs |-> s.ixs] ELSE Fails(s))
     ELSE IF o.reset /\ args = {} THEN
       (IF I.st = "none" THEN [ok |-> TRUE, out |-> {}, ixs |-> s.ixs]
        ELSE IF Writable(s, L) THEN [ok |-> TRUE, out |-> {}, ixs |-> Without(s.ixs, L)] ELSE Fails(s))
     ELSE IF args = {} /\ I.st = "none" THEN Fails(s)
     ELSE IF ~o.reset /\ I.st \in {"bad", "cut"} THEN Fails(s)
     ELSE IF ~Writable(s, L) THEN Fails(s)
     ELSE [ok |-> TRUE, out |-> {},
           ixs |-> With(s.ixs, L, [st |-> "sound", index |-> RunIndex(env, s.fs, I.index, args, o.reset, FALSE)])]

(* Without a check a bad index may be taken for a sound one. A new index in place of another where no file can be made: *)
(* not decided.                                                                                                          *)
Decided(s, o) ==
  LET L == Location(o)
      I == At(s, L)
  IN CASE o.op = "cindex" -> /\ I.st = "bad" => o.usage \/ o.check \/ (o.reset /\ ~o.list)
                             /\ (o.reset /\ ~o.list /\ o.args # <<>> /\ I.st # "none") => Writable(s, L)
       [] o.op \in {"csearch", "csweb"} -> I.st # "bad"
       [] OTHER -> TRUE

(* a search for something that all files contain, by csearch -l or csweb: all names that are still those of files *)
Finds(s, I) == {p \in {I.index.files[k].name : k \in DOMAIN I.index.files} : p \in DOMAIN s.fs /\ s.fs[p].kind = "file"}
Csearch(s, o) ==
  LET I == At(s, Location(o)) IN
  IF I.st = "sound" THEN [ok |-> Finds(s, I) # {}, out |-> Finds(s, I), ixs |-> s.ixs] ELSE Fails(s)
(* csweb shows an empty page if there is nothing to show *)
Csweb(s, o) ==
  LET I == At(s, Location(o)) IN
  IF I.st = "sound" THEN [ok |-> TRUE, out |-> Finds(s, I), ixs |-> s.ixs] ELSE Fails(s)

Command(env, s, o) ==
  CASE o.op = "cindex" -> Cindex(env, s, o)
    [] o.op = "csearch" -> Csearch(s, o)
    [] o.op = "csweb" -> Csweb(s, o)

IsCommand(o) == o.op \in {"cindex", "csearch", "csweb"}

(* what users do themselves *)
User(s, o) ==
  CASE o.op = "put" -> [s EXCEPT !.fs = Put(s.fs, o.path, [kind |-> o.kind, ok |-> TRUE, c |-> o.c])]
    [] o.op = "del" -> [s EXCEPT !.fs = Del(s.fs, o.path)]
    [] o.op = "spoil" -> [s EXCEPT !.ixs = With(s.ixs, o.at, [At(s, o.at) EXCEPT !.st = o.st])]
    [] o.op = "remove" -> [s EXCEPT !.ixs = Without(s.ixs, o.at)]
    [] o.op = "copy" -> [s EXCEPT !.ixs = With(s.ixs, o.to, At(s, o.at))]
    [] o.op = "mkdir" -> [s EXCEPT !.dirs = With(s.dirs, o.at, "rw")]
    [] o.op = "chmod" -> [s EXCEPT !.dirs = With(s.dirs, o.at, o.mode)]

After(env, s, o) == IF IsCommand(o) THEN [s EXCEPT !.ixs = Command(env, s, o).ixs] ELSE User(s, o)
=============================================================================
