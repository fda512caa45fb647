------------------------------ MODULE WebServer -----------------------------
(* A csweb that serves requests one after the other and at the same time,    *)
(* while clients go away and the index is replaced. It can have so many      *)
(* indexes open at once, and ends when it cannot open one more: it goes on   *)
(* only if every request gives back what it took, however it ends.           *)
EXTENDS WebKinds, TLC, Json

CONSTANTS Clients, MaxRequests, MaxUpdates,
          Asked,     \* kinds of requests
          Room,      \* indexes that can be open at once
          Emit

VARIABLES version, clients, held, alive, requests, updates, hist
vars == <<version, clients, held, alive, requests, updates, hist>>

Idle == [st |-> "idle"]
Init == /\ version = 0 /\ clients = [c \in Clients |-> Idle] /\ held = {}
        /\ alive = TRUE /\ requests = 0 /\ updates = 0 /\ hist = <<>>

H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

Start(c, k) ==
  /\ alive /\ clients[c].st = "idle" /\ requests < MaxRequests
  /\ clients' = [clients EXCEPT ![c] = [st |-> "sent", kind |-> k, lo |-> version, saw |-> version, here |-> TRUE]]
  /\ requests' = requests + 1
  /\ H([who |-> c, step |-> "start", kind |-> k])
  /\ UNCHANGED <<version, held, alive, updates>>
(* The server opens the index for a search. *)
Open(c) ==
  /\ alive /\ clients[c].st = "sent" /\ clients[c].kind \in Searching
  /\ IF Cardinality(held) < Room
     THEN held' = held \cup {<<c, requests>>} /\ UNCHANGED alive
     ELSE alive' = FALSE /\ UNCHANGED held
  /\ clients' = [clients EXCEPT ![c].st = "open", ![c].saw = version]
  /\ UNCHANGED <<version, requests, updates, hist>>
(* The server answers, and gives back what the request took. *)
Answer(c) ==
  /\ alive
  /\ clients[c].st = "open" \/ (clients[c].st = "sent" /\ clients[c].kind \notin Searching)
  /\ held' = {h \in held : h[1] # c}
  /\ clients' = [clients EXCEPT ![c] = IF clients[c].here THEN [clients[c] EXCEPT !.st = "answered"] ELSE Idle]
  /\ UNCHANGED <<version, alive, requests, updates, hist>>
Take(c) ==
  /\ clients[c].st = "answered"
  /\ clients' = [clients EXCEPT ![c] = Idle]
  /\ H([who |-> c, step |-> "take", kind |-> clients[c].kind])
  /\ UNCHANGED <<version, held, alive, requests, updates>>
(* The client does not wait for the answer. *)
Leave(c) ==
  /\ clients[c].st \in {"sent", "open"} /\ clients[c].here
  /\ Emit => requests % 3 = 0 \* not all the time
  /\ clients' = [clients EXCEPT ![c].here = FALSE]
  /\ H([who |-> c, step |-> "leave", kind |-> clients[c].kind])
  /\ UNCHANGED <<version, held, alive, requests, updates>>
Update ==
  /\ updates < MaxUpdates
  /\ version' = version + 1 /\ updates' = updates + 1
  /\ H([who |-> 0, step |-> "update", kind |-> ""])
  /\ UNCHANGED <<clients, held, alive, requests>>

Over == requests = MaxRequests /\ \A c \in Clients : clients[c].st = "idle"
Finish == /\ Emit /\ Over /\ hist # <<>>
          /\ PrintT("GEN " \o ToJson([steps |-> hist]))
          /\ hist' = <<>>
          /\ UNCHANGED <<version, clients, held, alive, requests, updates>>

Next == (\E c \in Clients : (\E k \in Asked : Start(c, k)) \/ Open(c) \/ Answer(c) \/ Take(c) \/ Leave(c)) \/ Update \/ Finish

GoesOn == alive
(* Only searches in progress hold an index. *)
Frugal == /\ \A h \in held : clients[h[1]].st = "open"
          /\ \A c \in Clients : Cardinality({h \in held : h[1] = c}) <= 1
(* What a search saw was the index at some time between its start and now. *)
Window == \A c \in Clients : clients[c].st # "idle" => clients[c].lo <= clients[c].saw /\ clients[c].saw <= version
=============================================================================
