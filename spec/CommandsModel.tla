---------------------------- MODULE CommandsModel ---------------------------
(* Sessions of commands with different homes, working directories and names  *)
(* for their index.                                                          *)
EXTENDS Commands, Json

CONSTANTS MaxOps, Emit

VARIABLES s, ops, hist, pick

Env == [elig |-> [c \in 1..3 |-> TRUE], tri |-> [c \in 1..3 |-> {c, 100}], arch |-> <<>>]

Homes == {<<"h">>, <<"k">>, <<"h", "sub">>}
A == <<SLASH, 97>>
B == <<SLASH, 97, 47, 98>>
C == <<SLASH, 99>>
Files == {<<SLASH, 97, 47, 102>>, <<SLASH, 97, 47, 98, 47, 102>>, C}
Namings == {[named |-> FALSE, abs |-> FALSE, ix |-> <<>>]}
         \cup {[named |-> TRUE, abs |-> TRUE, ix |-> p] : p \in {<<"h", ".csearchindex">>, <<"k", "", "ix">>, <<"h", "no", "ix">>}}
         \cup {[named |-> TRUE, abs |-> FALSE, ix |-> p] : p \in {<<"ix">>, <<"..", "k", ".", ".csearchindex">>, <<".csearchindex">>}}
Places == {<<"h", ".csearchindex">>, <<"k", "ix">>, <<"k", ".csearchindex">>, <<"h", "ix">>, <<"h", "sub", "ix">>, <<"h", "sub", ".csearchindex">>}

Who(op, n, h, d) == [op |-> op, cwd |-> d, home |-> h, named |-> n.named, abs |-> n.abs, ix |-> n.ix,
                     list |-> FALSE, reset |-> FALSE, check |-> FALSE, usage |-> FALSE, args |-> <<>>]
Flags == {[list |-> l, reset |-> r, check |-> c, usage |-> FALSE] : l \in BOOLEAN, r \in BOOLEAN, c \in BOOLEAN}
         \cup {[list |-> FALSE, reset |-> TRUE, check |-> FALSE, usage |-> TRUE]}
Arguments == {<<>>, <<A>>, <<B>>, <<C, A>>, <<A, B>>}
WithFlags(w, f, a) == [w EXCEPT !.list = f.list, !.reset = f.reset, !.check = f.check, !.usage = f.usage, !.args = a]

CindexOrders(n, h, d) == {WithFlags(Who("cindex", n, h, d), f, a) : f \in Flags, a \in Arguments}
Orders(n, h, d) == CindexOrders(n, h, d) \cup {Who("csearch", n, h, d)}

UserOps ==
  {[op |-> "put", path |-> p, kind |-> "file", c |-> c] : p \in {f \in Files : f # <<SLASH, 97, 47, 98, 47, 102>>}, c \in 1..2}
  \cup {[op |-> "spoil", at |-> L, st |-> x] : L \in {p \in Places : At(s, p).st = "sound" /\ Len(At(s, p).index.files) > 0}, x \in {"bad", "cut"}}
  \cup {[op |-> "remove", at |-> L] : L \in DOMAIN s.ixs}
  \cup {[op |-> "copy", at |-> L, to |-> M] : L \in DOMAIN s.ixs, M \in {<<"k", "ix">>, <<"h", ".csearchindex">>} \ DOMAIN s.ixs}
  \cup {[op |-> "chmod", at |-> d, mode |-> IF s.dirs[d] = "rw" THEN "ro" ELSE "rw"] : d \in {<<"h">>, <<"k">>}}
Possible(o) == o.op = "copy" => Writable(s, o.to)

Start == <<[op |-> "mkdir", at |-> <<"h">>], [op |-> "mkdir", at |-> <<"k">>], [op |-> "mkdir", at |-> <<"h", "sub">>],
           [op |-> "put", path |-> A, kind |-> "dir", c |-> 0], [op |-> "put", path |-> B, kind |-> "dir", c |-> 0],
           [op |-> "put", path |-> <<SLASH, 97, 47, 102>>, kind |-> "file", c |-> 1], [op |-> "put", path |-> <<SLASH, 97, 47, 98, 47, 102>>, kind |-> "file", c |-> 2],
           [op |-> "put", path |-> C, kind |-> "file", c |-> 3]>>

Init == /\ s = FoldLeft(LAMBDA a, o : After(Env, a, o),
                        [fs |-> <<SLASH>> :> [kind |-> "dir", ok |-> TRUE, c |-> 0], dirs |-> <<>>, ixs |-> <<>>], Start)
        /\ ops = 0
        /\ hist = IF Emit THEN Start ELSE <<>>
        /\ pick = <<>>

Do(o) == /\ s' = After(Env, s, o)
         /\ hist' = IF Emit THEN Append(hist, o) ELSE hist

(* everything that makes a difference, for model checking *)
Step ==
  \/ \E o \in UserOps : Possible(o) /\ Do(o)
  \/ \E n \in Namings, h \in {<<"h">>, <<"k">>} :
       \E f \in Flags, a \in {<<>>, <<A>>, <<C, A>>} :
         LET o == WithFlags(Who("cindex", n, h, IF n.abs THEN h ELSE <<"h">>), f, a) IN Decided(s, o) /\ Do(o)

Nth(S, k) == LET q == SetToSeq(S) IN q[(k % Len(q)) + 1]
(* one at random, for simulation *)
Picked ==
  LET n == IF pick[5] % 3 = 0 \/ DOMAIN s.ixs = {} THEN Nth(Namings, pick[2]) ELSE [named |-> TRUE, abs |-> TRUE, ix |-> Nth(DOMAIN s.ixs, pick[2])]
      h == Nth(Homes, pick[3])
      d == Nth(IF n.named /\ ~n.abs THEN Homes ELSE Homes \cup {<<>>}, pick[4])
      w == Who("cindex", n, h, d)
      o == CASE pick[1] % 9 = 0 -> [w EXCEPT !.op = "csearch"]
             [] pick[1] % 9 = 1 /\ pick[6] % 4 = 0 /\ At(s, Location(w)).st = "sound" -> [w EXCEPT !.op = "csweb"]
             [] pick[1] % 9 \in {2, 3, 4} -> WithFlags(w, [list |-> FALSE, reset |-> FALSE, check |-> pick[6] % 3 = 0, usage |-> FALSE], Nth(Arguments \ {<<>>}, pick[5]))
             [] OTHER -> WithFlags(w, Nth(Flags, pick[5]), Nth(Arguments, pick[6]))
      u == Nth(UserOps, pick[2] * 36 + pick[3])
  IN IF pick[1] > 26 THEN (IF Possible(u) THEN Do(u) ELSE UNCHANGED <<s, hist>>)
     ELSE IF Decided(s, o) THEN Do(o) ELSE UNCHANGED <<s, hist>>

Finish == /\ ops = MaxOps /\ Emit
          /\ ops' = MaxOps + 1
          /\ PrintT("GEN " \o ToJson([ops |-> hist]))
          /\ UNCHANGED <<s, hist, pick>>

Next ==
  \/ /\ ops < MaxOps
     /\ IF Emit /\ Len(pick) < 6
        THEN (\E x \in 0..35 : pick' = Append(pick, x)) /\ UNCHANGED <<s, ops, hist>>
        ELSE /\ ops' = ops + 1
             /\ pick' = <<>>
             /\ IF Emit THEN Picked ELSE Step
  \/ Finish

(* --- what must be so in every state --- *)
Same(c, d) == c = d
Outcome(o) == Command(Env, s, o)

(* a command changes no other index; one that fails or only reads changes none *)
Local ==
  \A n \in Namings : \A o \in Orders(n, <<"h">>, <<"k">>) : Decided(s, o) =>
    LET c == Outcome(o) IN
    /\ \A L \in (DOMAIN s.ixs \cup DOMAIN c.ixs) \ {Location(o)} : L \in DOMAIN s.ixs /\ L \in DOMAIN c.ixs /\ s.ixs[L] = c.ixs[L]
    /\ (~c.ok \/ o.list \/ o.op # "cindex") => c.ixs = s.ixs
    /\ ~c.ok => c.out = {}
    /\ (c.ok /\ o.op = "cindex" /\ ~o.list /\ o.args # <<>>) =>
         /\ c.ixs[Location(o)].st = "sound"
         /\ \A p \in Range(o.args) : UnderAny(p, Range(c.ixs[Location(o)].index.roots))
(* it does not matter how an index is named, nor where the command runs if it does not matter for the name *)
Named ==
  \A f \in Flags : \A a \in {<<>>, <<B>>} : \A h \in Homes :
    LET plain == WithFlags(Who("cindex", [named |-> FALSE, abs |-> FALSE, ix |-> <<>>], h, <<"k">>), f, a)
        abs == WithFlags(Who("cindex", [named |-> TRUE, abs |-> TRUE, ix |-> Append(h, ".csearchindex")], <<"k">>, <<"h">>), f, a)
        rel == WithFlags(Who("cindex", [named |-> TRUE, abs |-> FALSE, ix |-> <<".csearchindex">>], <<"k">>, h), f, a)
    IN Decided(s, plain) => Same(Outcome(plain), Outcome(abs)) /\ Same(Outcome(plain), Outcome(rel))
(* checking changes nothing but for bad indexes *)
Checking ==
  \A n \in Namings : \A f \in {x \in Flags : ~x.check} : \A a \in {<<>>, <<B>>} :
    LET o == WithFlags(Who("cindex", n, <<"h">>, <<"k">>), f, a)
    IN At(s, Location(o)).st # "bad" => Same(Outcome(o), Outcome([o EXCEPT !.check = TRUE]))
WellFormed == \A L \in DOMAIN s.ixs :
  /\ s.ixs[L].st \in {"sound", "bad", "cut"}
  /\ StrictlySorted(s.ixs[L].index.roots)
  /\ \A k \in DOMAIN s.ixs[L].index.files : UnderAny(s.ixs[L].index.files[k].name, Range(s.ixs[L].index.roots))
=============================================================================
