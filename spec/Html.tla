-------------------------------- MODULE Html --------------------------------
(* How a browser takes a page apart, as far as the pages of csweb need it.   *)
(* Pages are sequences of runes (0xdc00 + b: a byte that is not UTF-8).      *)
EXTENDS Text

LtC == 60
GtC == 62
Quot == 34
Apos == 39
Amp == 38
Space(c) == c \in {9, 10, 12, 13, 32}
Letter(c) == c \in 97..122 \/ c \in 65..90
Alnum(c) == Letter(c) \/ c \in 48..57
Str(s) == s \* strings of the specification are given as sequences of codes

(* Tokens: [tag, a, b], a text or the inside of a tag, at a..b. end: the state at the end of the page. *)
Tokens(p) ==
  LET F(st, k) ==
        LET c == p[k] IN
        CASE st.s = "text" -> IF c = LtC THEN [st EXCEPT !.s = "tag", !.from = k + 1,
                                               !.toks = IF k > st.from THEN Append(@, [tag |-> FALSE, a |-> st.from, b |-> k - 1]) ELSE @]
                              ELSE st
        []   st.s = "tag"  -> IF c = GtC THEN [st EXCEPT !.s = "text", !.from = k + 1, !.toks = Append(@, [tag |-> TRUE, a |-> st.from, b |-> k - 1])]
                              ELSE IF c \in {Quot, Apos} THEN [st EXCEPT !.s = "val", !.q = c]
                              ELSE IF c = LtC THEN [st EXCEPT !.ok = FALSE]
                              ELSE st
        []   st.s = "val"  -> IF c = st.q THEN [st EXCEPT !.s = "tag"] ELSE st
      r == FoldLeft(F, [s |-> "text", q |-> 0, from |-> 1, toks |-> <<>>, ok |-> TRUE], [k \in 1..Len(p) |-> k])
  IN [ok |-> r.ok /\ r.s = "text",
      toks |-> IF r.s = "text" /\ r.from <= Len(p) THEN Append(r.toks, [tag |-> FALSE, a |-> r.from, b |-> Len(p)]) ELSE r.toks]

(* The first position from k on, up to n + 1, where P does not hold. *)
RECURSIVE Skip(_, _, _)
Skip(t, k, kind) ==
  IF k > Len(t) THEN k
  ELSE IF (kind = "space" /\ Space(t[k])) \/ (kind = "name" /\ (Alnum(t[k]) \/ t[k] = 45))
       THEN Skip(t, k + 1, kind) ELSE k

(* The attributes of a tag from position k on: a sequence of [n, v]; <<[n |-> "bad"]>> at the end if malformed. *)
Bad == [n |-> <<-1>>, v |-> <<>>]
RECURSIVE Attrs(_, _)
Attrs(t, k0) ==
  LET k == Skip(t, k0, "space")
      e == Skip(t, k, "name")
  IN IF k > Len(t) THEN <<>>
     ELSE IF t[k] = 47 /\ k = Len(t) THEN <<>>
     ELSE IF e = k \/ k = k0 THEN <<Bad>>
     ELSE IF e > Len(t) \/ t[e] # 61 THEN <<[n |-> SubSeq(t, k, e - 1), v |-> <<>>]>> \o Attrs(t, e)
     ELSE IF e + 1 > Len(t) \/ t[e + 1] \notin {Quot, Apos} THEN <<Bad>>
     ELSE LET q == {j \in (e + 2)..Len(t) : t[j] = t[e + 1]} IN
          IF q = {} THEN <<Bad>>
          ELSE <<[n |-> SubSeq(t, k, e - 1), v |-> SubSeq(t, e + 2, Min(q) - 1)]>> \o Attrs(t, Min(q) + 1)

(* A tag: [close, name, attrs]. Declarations (<!...>) have the name <<33>>. *)
Tag(p, k) ==
  LET t == SubSeq(p, k.a, k.b)
      cl == t # <<>> /\ t[1] = 47
      from == IF cl THEN 2 ELSE 1
      e == Skip(t, from, "name")
  IN IF t # <<>> /\ t[1] = 33 THEN [close |-> FALSE, name |-> <<33>>, attrs |-> <<>>]
     ELSE IF e = from \/ ~Letter(t[from]) THEN [close |-> FALSE, name |-> <<>>, attrs |-> <<Bad>>]
     ELSE [close |-> cl, name |-> SubSeq(t, from, e - 1), attrs |-> Attrs(t, e)]

(* The page in parts: texts [tag |-> FALSE, a, b] and tags [tag |-> TRUE, close, name, attrs]. *)
Page(p) ==
  LET ts == TLCEval(Tokens(p))
      Part(k) == IF k.tag THEN Tag(p, k) @@ [tag |-> TRUE] ELSE k
      parts == TLCEval([j \in DOMAIN ts.toks |-> TLCEval(Part(ts.toks[j]))])
  IN [ok |-> ts.ok /\ \A j \in DOMAIN parts : parts[j].tag => \A m \in DOMAIN parts[j].attrs : parts[j].attrs[m] # Bad,
      parts |-> parts]

Structure(pg) == LET tg == SelectSeq(pg.parts, LAMBDA x : x.tag)
                 IN [j \in DOMAIN tg |-> [close |-> tg[j].close, name |-> tg[j].name,
                                          attrs |-> [m \in DOMAIN tg[j].attrs |-> tg[j].attrs[m].n]]]

(* character references *)
Refs == <<  <<<<108, 116>>, 60>>, <<<<103, 116>>, 62>>, <<<<97, 109, 112>>, 38>>, <<<<113, 117, 111, 116>>, 34>>, <<<<97, 112, 111, 115>>, 39>> >>
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Ref(b) == \* the rune that the reference with body b stands for, or -1
  LET named == {j \in DOMAIN Refs : Refs[j][1] = b}
      h == Len(b) >= 3 /\ b[1] = 35 /\ b[2] \in {120, 88}
      ds == IF h THEN SubSeq(b, 3, Len(b)) ELSE SubSeq(b, 2, Len(b))
  IN IF named # {} THEN Refs[CHOOSE j \in named : TRUE][2]
     ELSE IF Len(b) < 2 \/ b[1] # 35 THEN -1
     ELSE IF \E j \in DOMAIN ds : Hex(ds[j]) < 0 \/ (~h /\ Hex(ds[j]) > 9) THEN -1
     ELSE FoldLeft(LAMBDA a, d : (a * (IF h THEN 16 ELSE 10)) + Hex(d), 0, ds)
Unescape(s) ==
  IF \A k \in DOMAIN s : s[k] # Amp THEN s
  ELSE LET F(st, k) ==
             IF k < st.next THEN st
             ELSE IF s[k] # Amp THEN [st EXCEPT !.out = Append(@, s[k])]
             ELSE LET J == {j \in (k + 1)..(IF k + 9 < Len(s) THEN k + 9 ELSE Len(s)) : s[j] = 59}
                      r == IF J = {} THEN -1 ELSE Ref(SubSeq(s, k + 1, Min(J) - 1))
                  IN IF r < 0 THEN [st EXCEPT !.out = Append(@, Amp)]
                     ELSE [st EXCEPT !.out = Append(@, r), !.next = Min(J) + 1]
       IN FoldLeft(F, [out |-> <<>>, next |-> 0], [k \in 1..Len(s) |-> k]).out

(* what a page shows, from part j to part m *)
Shown(p, pg, j, m) ==
  FlattenSeq([x \in 1..(m - j + 1) |-> LET y == pg.parts[j + x - 1] IN IF y.tag THEN <<>> ELSE Unescape(SubSeq(p, y.a, y.b))])

AttrOf(tg, n) == LET S == {m \in DOMAIN tg.attrs : tg.attrs[m].n = n} IN IF S = {} THEN <<>> ELSE Unescape(tg.attrs[Min(S)].v)

Opens(pg, j, n) == pg.parts[j].tag /\ ~pg.parts[j].close /\ pg.parts[j].name = n
Closes(pg, j, n) == pg.parts[j].tag /\ pg.parts[j].close /\ pg.parts[j].name = n
(* the part that closes what part j opens (elements n do not nest), or the last one *)
Closing(pg, j, n) == LET S == {k \in (j + 1)..Len(pg.parts) : Closes(pg, k, n)} IN IF S = {} THEN Len(pg.parts) ELSE Min(S)

APOS_A == <<97>>
PRE == <<112, 114, 101>>
SPAN == <<115, 112, 97, 110>>
HREF == <<104, 114, 101, 102>>
ID == <<105, 100>>

(* the elements n with attribute at, from part j on: a sequence of [part, v, text, to] *)
Elements(p, pg, n, at, j) ==
  LET S == SetToSortSeq({k \in j..Len(pg.parts) : Opens(pg, k, n)}, LAMBDA x, y : x < y)
  IN [m \in DOMAIN S |-> LET c == Closing(pg, S[m], n) IN
                         [part |-> S[m], to |-> c, v |-> AttrOf(pg.parts[S[m]], at), text |-> Shown(p, pg, S[m] + 1, c)]]

(* bytes of runes *)
BytesOf(s) == FlattenSeq([k \in DOMAIN s |-> IF s[k] >= 56320 /\ s[k] <= 56575 THEN <<s[k] - 56320>> ELSE Utf8(s[k])])

(* URLs: [path, frag] of a reference that begins with a slash, the path as bytes *)
PercentDecode(b) ==
  LET F(st, k) ==
        IF k < st.next THEN st
        ELSE IF b[k] = 37 /\ k + 2 <= Len(b) /\ Hex(b[k + 1]) >= 0 /\ Hex(b[k + 2]) >= 0
             THEN [out |-> Append(st.out, (16 * Hex(b[k + 1])) + Hex(b[k + 2])), next |-> k + 3]
             ELSE [st EXCEPT !.out = Append(@, b[k])]
  IN FoldLeft(F, [out |-> <<>>, next |-> 0], [k \in 1..Len(b) |-> k]).out
Url(s) ==
  LET b == BytesOf(s)
      H == {k \in DOMAIN b : b[k] = 35}
      h == IF H = {} THEN Len(b) + 1 ELSE Min(H)
      Q == {k \in 1..(h - 1) : b[k] = 63}
      q == IF Q = {} THEN h ELSE Min(Q)
  IN [path |-> PercentDecode(SubSeq(b, 1, q - 1)), frag |-> SubSeq(b, h + 1, Len(b)), query |-> SubSeq(b, q + 1, h - 1)]

(* a path without repeated slashes *)
Squeeze(b) == LET S == SelectSeq([k \in DOMAIN b |-> k], LAMBDA k : k = 1 \/ b[k] # 47 \/ b[k - 1] # 47) IN [m \in DOMAIN S |-> b[S[m]]]
=============================================================================
