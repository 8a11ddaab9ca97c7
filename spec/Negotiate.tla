------------------------------ MODULE Negotiate -----------------------------
(***************************************************************************)
(* Negotiation over HTTP and the start of connections.  An id is pending   *)
(* until one connection owns it, or until it expires.  Time passes in      *)
(* ticks; an action takes much less than a tick.  The time to live is      *)
(* between Ttl and Ttl + 1 ticks.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxIds,
          Versions,    \* what is asked for: SUBSET {"none", "0", "1", "2", "x", "h0", "h1", "fac", "fall"}; h: with a header,
                       \* fac: the Go client makes connections again and again with the same options,
                       \* fall: the Go client may choose the transport: websockets, unless these fail
          Trs,         \* SUBSET {"ws", "sse"}
          Limit,       \* of pending ids; 0: none
          Ttl,         \* in ticks
          MaxTicks,
          Feats        \* SUBSET {"race", "post", "junk", "many", "go", "direct", "stop", "ends"}

VARIABLES ids,   \* of each: st "pend" "own" "gone", ver, age, tr, go (the Go client has it), post (age of a waiting request + 1, 0: there is none)
          res,   \* of the last action
          posts, \* the requests which were answered because of the last action
          ticks, stopped, mark

vars == <<ids, res, posts, ticks, stopped, mark>>

Ids == 1..Len(ids)
In(st) == {k \in Ids : ids[k].st = st}

Init == ids = <<>> /\ res = <<>> /\ posts = <<>> /\ ticks = 0 /\ stopped = FALSE /\ mark = ""

-----------------------------------------------------------------------------
V1(v) == v \in {"1", "h1"}
NewId(v, st, tr) == [st |-> st, ver |-> IF V1(v) THEN 1 ELSE 0, age |-> 0, tr |-> tr, post |-> 0, go |-> FALSE]
Min(a, b) == IF a < b THEN a ELSE b
Room(n) == IF Limit = 0 THEN n ELSE IF Cardinality(In("pend")) >= Limit THEN 0 ELSE Min(n, Limit - Cardinality(In("pend")))
Keep == UNCHANGED <<ids, ticks, stopped>>

(* n negotiations at the same time *)
Neg(a) ==
  LET ok == Room(a.n) IN
  /\ ids' = ids \o [i \in 1..ok |-> NewId(a.v, "pend", "")]
  /\ res' = [i \in 1..a.n |-> IF i <= ok THEN "new" ELSE "no"]
  /\ posts' = <<>> /\ UNCHANGED <<ticks, stopped>>

(* the Go client does it all *)
Go(a) ==
  /\ IF Room(1) = 1
     THEN ids' = Append(ids, [NewId(a.v, "own", a.tr) EXCEPT !.go = TRUE]) /\ res' = <<"ok">>
     ELSE UNCHANGED ids /\ res' = <<"no">>
  /\ posts' = <<>> /\ UNCHANGED <<ticks, stopped>>

(* a websocket without negotiation *)
Direct == ids' = Append(ids, NewId("0", "own", "ws")) /\ res' = <<"ok">> /\ posts' = <<>> /\ UNCHANGED <<ticks, stopped>>

Str(k) == ToString(k)
Answer(k, ok) == IF ids[k].post = 0 THEN <<>> ELSE <<Str(k) \o (IF ok THEN ":ok" ELSE ":no")>>
Own(k, tr) ==
  /\ ids' = [ids EXCEPT ![k].st = "own", ![k].tr = tr, ![k].post = 0]
  /\ posts' = Answer(k, tr = "sse")

Known(a) == a.k \in Ids /\ a.key = "own"
Conn(a) ==
  /\ UNCHANGED <<ticks, stopped>>
  /\ IF Known(a) /\ ids[a.k].st = "pend"
     THEN Own(a.k, a.tr) /\ res' = <<"ok">>
     ELSE UNCHANGED ids /\ posts' = <<>> /\ res' = <<"no">>

(* two connections at the same time: one of them wins *)
Race(a) ==
  /\ UNCHANGED <<ticks, stopped>>
  /\ IF a.k \in Ids /\ ids[a.k].st = "pend"
     THEN \/ Own(a.k, a.t1) /\ res' = <<"ok", "no">>
          \/ Own(a.k, a.t2) /\ res' = <<"no", "ok">>
     ELSE UNCHANGED ids /\ posts' = <<>> /\ res' = <<"no", "no">>

Post(a) ==
  /\ UNCHANGED <<ticks, stopped>> /\ res' = <<>>
  /\ IF a.k \in Ids /\ ids[a.k].go THEN UNCHANGED ids /\ posts' = <<>>
     ELSE IF ~Known(a) THEN UNCHANGED ids /\ posts' = <<Str(a.k) \o ":no">>
     ELSE IF ids[a.k].st # "pend" THEN UNCHANGED ids /\ posts' = <<Str(a.k) \o (IF ids[a.k].st = "own" /\ ids[a.k].tr = "sse" THEN ":ok" ELSE ":no")>>
     ELSE ids' = [ids EXCEPT ![a.k].post = IF @ = 0 THEN 1 ELSE @] /\ posts' = <<>>

End(a) ==
  /\ res' = <<>> /\ posts' = <<>> /\ UNCHANGED <<ticks, stopped>>
  /\ IF a.k \in In("own") THEN ids' = [ids EXCEPT ![a.k].st = "gone"] ELSE UNCHANGED ids

RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]

(* Ids do not expire before their time and not much later.  Who waits too long is sent away. *)
Tick ==
  LET old == {k \in In("pend") : ids[k].age + 1 > Ttl}
      dead == {k \in In("pend") : ids[k].age + 1 > 2 * Ttl + 1}
      late == {k \in In("pend") : ids[k].post > Ttl} IN
  \E s \in {{k \in old : k <= n} : n \in 0..Len(ids)} :  \* the oldest first
    /\ dead \subseteq s
    /\ ids' = [k \in Ids |-> IF k \in s THEN [ids[k] EXCEPT !.st = "gone", !.post = 0]
                             ELSE [ids[k] EXCEPT !.age = IF ids[k].st = "pend" THEN @ + 1 ELSE @,
                                                 !.post = IF @ = 0 \/ k \in late THEN 0 ELSE @ + 1]]
    /\ posts' = Cat([k \in Ids |-> IF k \in s \cup late THEN Answer(k, FALSE) ELSE <<>>], Len(ids))
    /\ res' = <<>> /\ ticks' = ticks + 1 /\ UNCHANGED stopped

(* nothing which is not right has an effect *)
Junk(a) == Keep /\ res' = <<"no">> /\ posts' = <<>>

Stop ==
  /\ ids' = [k \in Ids |-> IF ids[k].st = "own" THEN [ids[k] EXCEPT !.st = "gone"] ELSE ids[k]]
  /\ stopped' = TRUE /\ res' = <<>> /\ posts' = <<>> /\ UNCHANGED ticks

Env(a) ==
  /\ mark' = a.a \o (IF a.a = "go" THEN a.v \o a.tr ELSE IF a.a = "junk" THEN ToString(a.kind) ELSE IF a.a \in {"conn", "race", "post"} THEN ToString(a.k) ELSE "")
  /\ CASE a.a = "neg" -> Neg(a)
       [] a.a = "go" -> Go(a)
       [] a.a = "direct" -> Direct
       [] a.a = "conn" -> Conn(a)
       [] a.a = "race" -> Race(a)
       [] a.a = "post" -> Post(a)
       [] a.a = "end" -> End(a)
       [] a.a = "tick" -> Tick
       [] a.a = "junk" -> Junk(a)
       [] a.a = "stop" -> Stop
Busy == FALSE
Internal == FALSE /\ UNCHANGED vars

(* What can be seen of the ids: calls over the connection which owns it are answered *)
Live == [k \in Ids |-> IF ids[k].st = "own" THEN "ok" ELSE ""]

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
Free(n) == Len(ids) + n <= MaxIds
GoVersions == Versions \cap ({"none", "0", "1", "fac"} \cup (IF Cardinality(Trs) = 2 THEN {"fall"} ELSE {}))
EnvActs ==
  IF stopped THEN {} ELSE
  {[a |-> "neg", v |-> v, n |-> n] : v \in Versions \ {"fac", "fall"}, n \in {n \in (IF "many" \in Feats THEN {1, 3} ELSE {1}) : Free(n)}}
  \cup (IF Free(1) /\ "go" \in Feats THEN {[a |-> "go", v |-> v, tr |-> tr] : v \in GoVersions, tr \in Trs} ELSE {})
  \cup (IF Free(1) /\ "direct" \in Feats /\ "ws" \in Trs THEN {[a |-> "direct"]} ELSE {})
  \cup {[a |-> "conn", k |-> k, key |-> y, tr |-> tr] : k \in Ids, tr \in Trs, y \in (IF "junk" \in Feats THEN {"own", "foreign"} ELSE {"own"})}
  \cup (IF "race" \in Feats THEN {[a |-> "race", k |-> k, t1 |-> t1, t2 |-> t2] : k \in Ids, t1 \in Trs, t2 \in Trs} ELSE {})
  \cup (IF "post" \in Feats
        THEN {[a |-> "post", k |-> k, key |-> y] : k \in {k \in Ids : ids[k].post = 0 /\ ~ids[k].go}, y \in (IF "junk" \in Feats THEN {"own", "foreign"} ELSE {"own"})}
        ELSE {})
  \cup {[a |-> "end", k |-> k, how |-> h] : k \in In("own"), h \in (IF "ends" \in Feats THEN {"drop", "bye", "abort"} ELSE {"drop"})}
  \cup (IF ticks < MaxTicks /\ Len(ids) > 0 THEN {[a |-> "tick"]} ELSE {})
  \cup (IF "junk" \in Feats THEN {[a |-> "junk", kind |-> i] : i \in 0..9} ELSE {})
  \cup (IF "stop" \in Feats /\ Len(ids) > 0 THEN {[a |-> "stop"]} ELSE {})

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kind(s) == {a \in EnvActs : a.a \in s}
(* Few repetitions without effect *)
Useful == {a \in EnvActs : a.a \in {"conn", "race"} => ids[a.k].st = "pend" \/ RandomElement(1..6) = 1}
WalkActs ==
  LET u == Useful
      f(s) == Draw({a \in u : a.a \in s})
      c == RandomElement(1..12) IN
  IF c <= 3 THEN f({"neg"}) \cup f({"tick"}) ELSE IF c <= 6 THEN f({"conn"}) \cup f({"race"}) \cup f({"post"})
  ELSE IF c <= 8 THEN f({"tick"}) ELSE IF c = 9 THEN f({"end"}) \cup f({"post"}) ELSE IF c = 10 THEN f({"junk", "go", "direct"}) \cup f({"tick"})
  ELSE IF c = 11 THEN f({"post"}) \cup f({"conn"}) ELSE (IF RandomElement(1..4) = 1 THEN f({"stop"}) ELSE f({"race"})) \cup f({"neg"})

-----------------------------------------------------------------------------
(* C17 *)
TypeOK == /\ \A k \in Ids : ids[k].st \in {"pend", "own", "gone"}
          /\ (\A k \in Ids : ids[k].st # "pend" => ids[k].post = 0)
LimitKept == Limit > 0 => Cardinality(In("pend")) <= Limit
NotTooOld == \A k \in In("pend") : ids[k].age <= 2 * Ttl + 1
NoEndlessWait == \A k \in Ids : ids[k].post <= Ttl + 1
(* an id has one owner in its life *)
Once == [][\A k \in Ids : /\ ids[k].st = "own" => ids'[k].st \in {"own", "gone"} /\ ids'[k].tr = ids[k].tr
                          /\ ids[k].st = "gone" => ids'[k] = ids[k]]_vars
(* nobody loses a young id *)
NotTooEarly == [][\A k \in In("pend") : ids'[k].st = "gone" => ids[k].age >= Ttl]_vars
(* one action starts one connection at most *)
OneWinner == [][Cardinality({i \in DOMAIN res' : res'[i] = "ok"}) <= 1]_vars
Spec == Init /\ [][\E a \in EnvActs : Env(a)]_vars
=============================================================================
