------------------------------- MODULE Caller -------------------------------
(***************************************************************************)
(* The client as caller: Invoke, Send, PullStream and PushStreams.         *)
(*                                                                         *)
(* The environment is the user of the client, who issues calls and feeds   *)
(* upload streams, and the server, which answers calls in any order, ends  *)
(* connections or stops reading.  Each call has to resolve exactly once:   *)
(* got[i] is what its channel delivers, in order, before it is closed.     *)
(*   "r" the result, "1" "2".. the stream items, "e" the error the server  *)
(*   sent for this call, "x" an error of the client (not connected, ended) *)
(* Several actions can be in progress at the same time (par): they take    *)
(* effect in any order.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NCalls, NConns,
          Kinds,     \* SUBSET {"invoke", "send", "pull", "push"}
          Answers,   \* SUBSET {"res", "void", "err", "item"}
          Ends,      \* how the server ends a connection: drop err bye byeerr byere byeerrre
          Batch,     \* messages of the server in one chunk
          NItems,    \* items the server sends / the user pushes for one call
          Reconn,    \* the client has a connector
          Feats      \* SUBSET {"par", "stop", "stall", "junk", "srvinv", "early", "hold", "storm"}

Calls == 1..NCalls

VARIABLES
  st,       \* created, connecting, up, closed
  conn,     \* number of connections used
  stalled,  \* the server does not read
  kind, ph, \* [Calls -> ...]  ph: none, wait (for a connection), blocked (server does not read), open, done
  wired,    \* [Calls -> connection on which the invocation was written, 0 if it was not]
  got,      \* [Calls -> what the channel of the call delivered]
  n,        \* [Calls -> items the server sent]
  pq, up,   \* [Calls -> items pushed by the user; .. and written to the connection]
  ncall,
  held,     \* [Calls -> 0, or 1 + what the user has taken before he stopped to read the channel of the call]
  todo,
  mark

vars == <<st, conn, stalled, kind, ph, wired, got, n, pq, up, ncall, held, todo, mark>>

Init ==
  /\ st = "created" /\ conn = 0 /\ stalled = FALSE
  /\ kind = [i \in Calls |-> "none"] /\ ph = [i \in Calls |-> "none"]
  /\ wired = [i \in Calls |-> 0]
  /\ got = [i \in Calls |-> <<>>]
  /\ n = [i \in Calls |-> 0]
  /\ pq = [i \in Calls |-> <<>>] /\ up = [i \in Calls |-> <<>>]
  /\ ncall = 0 /\ held = [i \in Calls |-> 0]
  /\ todo = {}
  /\ mark = {}

-----------------------------------------------------------------------------
(* Effects.  ncall and mark are left to the caller *)

Pending(i) == ph[i] \in {"wait", "blocked", "open"}
OnWire(i) == ph[i] \in {"blocked", "open"}

(* call i can be sent now, or has to wait, or fails *)
Go(i, k, td) ==
  /\ kind' = [kind EXCEPT ![i] = k]
  /\ ph' = [ph EXCEPT ![i] = CASE st \in {"created", "closed"} -> "done" [] st = "connecting" -> "wait"
                             [] st = "up" -> IF stalled THEN "blocked" ELSE "open"]
  /\ got' = IF st \in {"created", "closed"} THEN [got EXCEPT ![i] = Append(@, "x")] ELSE got
  /\ wired' = IF st = "up" /\ ~stalled THEN [wired EXCEPT ![i] = conn] ELSE wired
  /\ up' = IF st = "up" /\ ~stalled THEN [up EXCEPT ![i] = pq[i]] ELSE up
  /\ todo' = td
  /\ UNCHANGED <<st, conn, stalled, n, pq>>

Accept(td) ==
  /\ IF st # "connecting" THEN UNCHANGED st /\ todo' = td
     ELSE st' = "up" /\ todo' = td \cup {[a |-> "go", i |-> i, kind |-> kind[i]] : i \in {i \in Calls : ph[i] = "wait"}}
  /\ UNCHANGED <<conn, stalled, kind, ph, wired, got, n, pq, up>>

Start(td) ==
  /\ st' = "connecting" /\ conn' = 1 /\ todo' = td
  /\ UNCHANGED <<stalled, kind, ph, wired, got, n, pq, up>>

(* the connection ends; the client connects again, or it is closed *)
NoReconnect == {"bye", "byeerr"}
LoseTo(how, td) ==
  LET again == Reconn /\ how \notin NoReconnect
      hit(i) == IF again THEN OnWire(i) ELSE Pending(i)
  IN
  /\ st' = IF again THEN "connecting" ELSE "closed"
  /\ conn' = IF again THEN conn + 1 ELSE conn
  /\ stalled' = FALSE
  /\ ph' = [i \in Calls |-> IF hit(i) THEN "done" ELSE ph[i]]
  /\ got' = [i \in Calls |-> IF hit(i) THEN Append(got[i], "x") ELSE got[i]]
  /\ todo' = td
  /\ UNCHANGED <<kind, wired, n, pq, up>>
Lose(c, how, td) == IF st \in {"connecting", "up"} /\ conn = c THEN LoseTo(how, td)
                 ELSE todo' = td /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n, pq, up>>

Stop(td) ==
  /\ st' = "closed" /\ stalled' = FALSE
  /\ ph' = [i \in Calls |-> IF Pending(i) \/ ph[i] = "cut" THEN "done" ELSE ph[i]]
  /\ got' = [i \in Calls |-> IF Pending(i) THEN Append(got[i], "x") ELSE got[i]]
  /\ todo' = td
  /\ UNCHANGED <<conn, kind, wired, n, pq, up>>

(* call i notices already that the client is stopped *)
Cut(i, td) ==
  /\ ph' = IF Pending(i) THEN [ph EXCEPT ![i] = "cut"] ELSE ph
  /\ got' = IF Pending(i) THEN [got EXCEPT ![i] = Append(@, "x")] ELSE got
  /\ todo' = td
  /\ UNCHANGED <<st, conn, stalled, kind, wired, n, pq, up>>

(* the first of the messages ms of the server *)
Fits(i, w) == w # "item" \/ kind[i] = "pull"
Srv(c, ms, td) ==
  LET i == Head(ms).i
      w == Head(ms).w
      td2 == IF Len(ms) = 1 THEN td ELSE td \cup {[a |-> "srv", c |-> c, ms |-> Tail(ms)]}
      fin(g) == /\ ph' = [ph EXCEPT ![i] = "done"]
                /\ got' = [got EXCEPT ![i] = @ \o g]
                /\ UNCHANGED n
  IN
  IF st # "up" \/ conn # c THEN todo' = td /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n, pq, up>>
  ELSE IF ph[i] = "cut" THEN todo' = td2 /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n, pq, up>>
  ELSE IF wired[i] # conn \/ ph[i] # "open" \/ ~Fits(i, w) \/ (kind[i] = "pull" /\ w = "res" /\ n[i] > 0)
  THEN LoseTo("err", td)
  ELSE /\ CASE w = "item" -> /\ n' = [n EXCEPT ![i] = @ + 1]
                             /\ got' = [got EXCEPT ![i] = Append(@, ToString(n[i] + 1))]
                             /\ UNCHANGED ph
            [] w = "err"  -> fin(<<"e">>)
            [] w = "void" -> fin(<<>>)
            [] w = "res" /\ kind[i] = "pull" -> got' = [got EXCEPT ![i] = Append(@, "r")] /\ UNCHANGED <<ph, n>>
            [] w = "res" /\ kind[i] # "pull" -> fin(IF kind[i] = "send" THEN <<>> ELSE <<"r">>)
       \* the result of a stream is its last item
       /\ todo' = IF w = "res" /\ kind[i] = "pull" THEN td \cup {[a |-> "srv", c |-> c, ms |-> <<[i |-> i, w |-> "void"]>> \o Tail(ms)]} ELSE td2
       /\ UNCHANGED <<st, conn, stalled, kind, wired, pq, up>>

(* the user pushes an item to (s = "c": closes) an upload stream of call i *)
Push(i, s, td) ==
  /\ pq' = [pq EXCEPT ![i] = Append(@, s)]
  /\ up' = IF st = "up" /\ ~stalled /\ wired[i] = conn THEN [up EXCEPT ![i] = Append(@, s)] ELSE up
  /\ todo' = td
  /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n>>

Stall(td) ==
  /\ stalled' = TRUE /\ todo' = td
  /\ UNCHANGED <<st, conn, kind, ph, wired, got, n, pq, up>>

Unstall(td) ==
  LET b(i) == ph[i] = "blocked" IN
  /\ stalled' = FALSE
  /\ ph' = [i \in Calls |-> IF b(i) THEN "open" ELSE ph[i]]
  /\ wired' = [i \in Calls |-> IF b(i) THEN conn ELSE wired[i]]
  /\ up' = [i \in Calls |-> IF wired'[i] = conn THEN pq[i] ELSE up[i]]
  /\ todo' = td
  /\ UNCHANGED <<st, conn, kind, got, n, pq>>

Nothing(td) == todo' = td /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n, pq, up>>

Do(a, td) ==
  CASE a.a \in {"call", "go"} -> Go(a.i, a.kind, td)
    [] a.a = "start"   -> Start(td)
    [] a.a = "accept"  -> Accept(td)
    [] a.a = "lose"    -> Lose(a.c, a.how, td)
    [] a.a = "stop"    -> Stop(td \ {[a |-> "cut", i |-> i] : i \in Calls})
    [] a.a = "cut"     -> Cut(a.i, td)
    [] a.a = "srv"     -> Srv(a.c, a.ms, td)
    [] a.a = "push"    -> Push(a.i, a.s, td)
    [] a.a = "stall"   -> Stall(td)
    [] a.a = "unstall" -> Unstall(td)
    [] a.a \in {"srvinv", "hold", "read", "storm", "quick"} -> Nothing(td)

NewCalls(acts) == Cardinality({j \in DOMAIN acts : acts[j].a = "call"})
Count(acts) ==
  /\ ncall' = ncall + NewCalls(acts)
  \* a storm is a crowd of calls which are all answered before anything else happens
  /\ mark' = IF Len(acts) = 1 /\ acts[1].a = "srvinv" THEN mark \cup {acts[1].i} ELSE IF Len(acts) = 1 /\ acts[1].a = "storm" THEN mark \cup {0}
             \* quick: calls which are answered before the writing of the invocation has returned
             ELSE IF Len(acts) = 1 /\ acts[1].a = "quick" THEN mark \cup {1000} ELSE mark
  /\ held' = IF Len(acts) = 1 /\ acts[1].a = "hold" THEN [held EXCEPT ![acts[1].i] = Len(got[acts[1].i]) + 1]
              ELSE IF Len(acts) = 1 /\ acts[1].a = "read" THEN [held EXCEPT ![acts[1].i] = 0] ELSE held

Env(a) ==
  IF a.a = "par"
  THEN /\ Count(a.acts)
       /\ LET acts == {a.acts[j] : j \in DOMAIN a.acts} IN
          todo' = acts \cup (IF [a |-> "stop"] \in acts THEN {[a |-> "cut", i |-> i] : i \in {i \in Calls : OnWire(i)}} ELSE {})
       /\ UNCHANGED <<st, conn, stalled, kind, ph, wired, got, n, pq, up>>
  ELSE Count(<<a>>) /\ Do(a, {})

(* messages of the server are processed in order; calls alone do not influence each other *)
Busy == todo # {}
Harmless(a) ==
  \/ a.a \in {"call", "go", "push", "accept"}
  \/ a.a = "srv" /\ \A j \in DOMAIN a.ms : LET m == a.ms[j] IN
       st = "up" /\ conn = a.c /\ ph[m.i] = "open" /\ Fits(m.i, m.w) /\ (kind[m.i] = "pull" => m.w # "res")
Internal ==
  /\ Busy
  /\ LET now == IF \A a \in todo : Harmless(a) THEN {CHOOSE a \in todo : TRUE} ELSE todo
     IN \E a \in now : Do(a, todo \ {a})
  /\ UNCHANGED <<ncall, mark, held>>

-----------------------------------------------------------------------------
(* The environment actions worth exploring; o: number of calls which are already used by others *)
Open == {i \in Calls : ph[i] = "open" /\ wired[i] = conn}

StartActs == IF st = "created" THEN {[a |-> "start"]} ELSE {}
CallActs(o) == IF ncall + o >= NCalls \/ (st = "created" /\ "early" \notin Feats) THEN {}
               ELSE {[a |-> "call", i |-> ncall + o + 1, kind |-> k] : k \in Kinds}
AcceptActs == IF st = "connecting" THEN {[a |-> "accept"]} ELSE {}
EndActs == IF st \in {"up"} /\ (~Reconn \/ conn < NConns) THEN {[a |-> "lose", c |-> conn, how |-> h] : h \in Ends}
           ELSE IF st = "connecting" /\ (~Reconn \/ conn < NConns) THEN {[a |-> "lose", c |-> conn, how |-> "drop"]}
           ELSE {}
StopActs == IF "stop" \in Feats /\ st # "closed" THEN {[a |-> "stop"]} ELSE {}
StallActs == IF "stall" \in Feats /\ st = "up" THEN {[a |-> IF stalled THEN "unstall" ELSE "stall"]} ELSE {}
Useful(i, w) == (w = "item" => kind[i] = "pull" /\ n[i] < NItems) /\ (w = "res" => kind[i] # "pull" \/ n[i] = 0)
Msgs == {[i |-> i, w |-> w] : i \in Open, w \in Answers}
SrvActs ==
  IF st # "up" THEN {}
  ELSE LET one == {m \in Msgs : Useful(m.i, m.w)}
           two == IF Batch < 2 THEN {}
                  ELSE {<<p, q>> : p \in one, q \in one}
           ok(s) == s[1].i = s[2].i => s[1].w = "item" /\ s[2].w # "res" /\ (s[2].w = "item" => n[s[1].i] + 2 <= NItems)
           three == IF Batch < 3 THEN {}
                    ELSE {<<[i |-> i, w |-> "item"], [i |-> i, w |-> "item"], [i |-> i, w |-> w]>> :
                            i \in {i \in Open : Useful(i, "item") /\ n[i] + 2 <= NItems}, w \in {"void", "err"} \cap Answers}
           junk == IF "junk" \notin Feats \/ (Reconn /\ conn >= NConns) THEN {}
                   ELSE {<<m>> : m \in {m \in [i : {i \in Calls : wired[i] = conn}, w : Answers] : ph[m.i] = "done" \/ ~Fits(m.i, m.w) \/ (kind[m.i] = "pull" /\ m.w = "res" /\ n[m.i] > 0)}}
       IN {[a |-> "srv", c |-> conn, ms |-> s] : s \in {<<m>> : m \in one} \cup {s \in two : ok(s)} \cup three \cup junk}
PushActs ==
  {[a |-> "push", i |-> i, s |-> s] :
     i \in {i \in Calls : kind[i] = "push" /\ ph[i] # "none" /\ (pq[i] = <<>> \/ pq[i][Len(pq[i])] # "c")},
     s \in {"i", "c"}}
(* items are numbered *)
Num(a) == [a EXCEPT !.s = IF a.s = "i" THEN ToString(Len(pq[a.i]) + 1) ELSE "c"]
PushActs2 == {Num(a) : a \in {a \in PushActs : a.s = "c" \/ Len(pq[a.i]) < NItems}}
SrvInvActs == IF "srvinv" \notin Feats \/ st # "up" \/ stalled THEN {}
              ELSE {[a |-> "srvinv", i |-> i] : i \in Open \ mark}

HoldActs == IF "hold" \notin Feats THEN {}
            ELSE {[a |-> "hold", i |-> i] : i \in {i \in Calls : held[i] = 0 /\ Pending(i) /\ kind[i] \in {"invoke", "pull"}}}
                 \cup {[a |-> "read", i |-> i] : i \in {i \in Calls : held[i] > 0}}
StormActs == IF "storm" \notin Feats \/ st # "up" \/ stalled THEN {}
             ELSE {[a |-> x] : x \in (IF 0 \in mark THEN {} ELSE {"storm"}) \cup (IF 1000 \in mark THEN {} ELSE {"quick"})}

Acts(o) == CallActs(o) \cup SrvActs \cup EndActs \cup PushActs2 \cup AcceptActs
EnvActs0 == StartActs \cup Acts(0) \cup StopActs \cup StallActs \cup SrvInvActs \cup HoldActs \cup StormActs

Compatible(a, b) ==
  /\ ~(a.a = b.a /\ a.a \in {"lose", "accept", "stop", "srv"})
  /\ ~(a.a = "push" /\ b.a = "push" /\ a.i = b.i)
  /\ ~({a.a, b.a} \subseteq {"lose", "stop", "accept"} /\ st = "connecting")
  /\ ~({a.a, b.a} = {"lose", "stop"})
Is(a, S) == a.a \in S
ParActs == IF "par" \notin Feats THEN {}
  ELSE {[a |-> "par", acts |-> <<p[1], p[2]>>] :
          p \in {q \in Acts(0) \X (Acts(1) \cup StopActs) : Compatible(q[1], q[2])}}

EnvActs == EnvActs0 \cup ParActs

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Burst(m) ==
  IF ncall + m > NCalls \/ st \notin {"up", "connecting"} THEN {}
  ELSE {[a |-> "par", acts |-> [j \in 1..m |-> [a |-> "call", i |-> ncall + j, kind |-> RandomElement(Kinds)]]]}
DrawPar(m) ==
  LET x == Draw(Draw(CallActs(0)) \cup Draw(SrvActs) \cup Draw(PushActs2))
      y == Draw(Draw(CallActs(1)) \cup Draw(SrvActs) \cup Draw(EndActs) \cup Draw(StopActs) \cup Draw(AcceptActs) \cup Draw(PushActs2))
      z == IF m = 2 THEN {} ELSE Draw(CallActs(2) \cup EndActs)
  IN IF x = {} \/ y = {} \/ (m = 3 /\ z = {}) THEN {}
     ELSE LET p == <<CHOOSE a \in x : TRUE, CHOOSE a \in y : TRUE>>
              acts == IF m = 2 THEN p ELSE Append(p, CHOOSE a \in z : TRUE)
              \* calls are numbered without gaps
              c == NewCalls(acts)
              nums == {acts[j].i : j \in {j \in DOMAIN acts : acts[j].a = "call"}}
          IN IF (\E i, j \in DOMAIN acts : i < j /\ ~Compatible(acts[i], acts[j])) \/ nums # {ncall + j : j \in 1..c} THEN {}
             ELSE {[a |-> "par", acts |-> acts]}
WalkActs ==
  IF st = "created" /\ RandomElement(1..4) # 1 THEN StartActs
  ELSE LET s == StartActs \cup Draw(CallActs(0)) \cup Draw(CallActs(0)) \cup Draw(SrvActs) \cup Draw(SrvActs) \cup Draw(AcceptActs) \cup Draw(PushActs2)
                \cup Draw(SrvInvActs) \cup Draw(HoldActs) \cup StormActs \cup (IF RandomElement(1..5) = 1 THEN Draw(StallActs \cup EndActs) ELSE {})
                \cup (IF stalled THEN StallActs ELSE {})
                \cup (IF RandomElement(1..9) = 1 THEN StopActs ELSE {})
                \cup (IF "par" \in Feats THEN DrawPar(2) \cup DrawPar(3) \cup Burst(3) \cup Burst(6) ELSE {})
       IN IF s # {} THEN s ELSE EnvActs0

ParOk(a) == IF a.a # "par" THEN TRUE
            ELSE {a.acts[j].i : j \in {j \in DOMAIN a.acts : a.acts[j].a = "call"}} = {ncall + j : j \in 1..NewCalls(a.acts)}

-----------------------------------------------------------------------------
(* C02 *)
TypeOK ==
  /\ st \in {"created", "connecting", "up", "closed"}
  /\ \A i \in Calls : ph[i] \in {"none", "wait", "blocked", "open", "done", "cut"}
Final == {"r", "e", "x"}
(* a call resolves once: nothing follows a result or an error, and only streams deliver several things *)
ResolvesOnce ==
  \A i \in Calls : \A j \in DOMAIN got[i] :
    /\ got[i][j] \in Final \ {"r"} => j = Len(got[i]) /\ ph[i] \in {"done", "cut"}
    /\ got[i][j] = "r" => IF kind[i] = "pull" THEN j = 1 /\ got[i] \in {<<"r">>, <<"r", "x">>} ELSE Len(got[i]) = 1 /\ ph[i] = "done"
    /\ got[i][j] \notin Final => kind[i] = "pull" /\ got[i][j] = ToString(j)
(* nothing is pending without a connection to hope for *)
NoneHangs == /\ (~Busy /\ st = "closed") => \A i \in Calls : ~Pending(i)
             /\ ~Busy => \A i \in Calls : ph[i] # "cut"
OpenIsHere == ~Busy => \A i \in Calls : OnWire(i) => st = "up" /\ (ph[i] = "open" => wired[i] = conn)
UpIsPrefix == \A i \in Calls : up[i] = SubSeq(pq[i], 1, Len(up[i]))
(* a call which looks successful was answered *)
GotOnlyGrows == [][\A i \in Calls : got[i] = SubSeq(got'[i], 1, Len(got[i])) /\ (ph[i] \in {"done", "cut"} => got'[i] = got[i])]_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : ParOk(a) /\ Env(a))]_vars
=============================================================================
