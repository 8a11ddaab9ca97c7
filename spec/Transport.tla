----------------------------- MODULE Transport ------------------------------
(***************************************************************************)
(* Connections over HTTP.  Every message has a number and a size; what     *)
(* one side sends arrives on the other side, once and in order.  The peer  *)
(* of the server is the Go client ("go") or somebody who uses the          *)
(* transport in a way of his own ("raw"); for "srv" the Go client talks to *)
(* such a server.                                                          *)
(*                                                                         *)
(* What is pushed (pushed streams, posts, websocket messages) may be in    *)
(* pieces: part is the message the first piece of which has arrived, slow  *)
(* is the message of a request which has not ended yet.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NConns, P1, T1, P2, T2,  \* peers and transports ("ws", "sse") of the connections
          Sizes,    \* SUBSET {"s", "b", "k", "m"}: small, around the sizes of the buffers on the way (4 kB, 32 kB), as large as possible
          MaxN,     \* messages of an action
          MaxSent,  \* messages in each direction
          Feats     \* SUBSET {"par", "call", "streams", "over", "posts", "slow", "forms", "ends", "race", "stall", "fail"}

Conns == 1..NConns
Peer(k) == IF k = 1 THEN P1 ELSE P2
Tr(k) == IF k = 1 THEN T1 ELSE T2

VARIABLES
  st,     \* of each connection: "on", "off"
  nd, nu, \* messages sent down (by the server) and up
  part, slow, lap, \* lap: something overlapped the slow request
  queue,  \* messages on the way to a peer who does not read
  stall,  \* the peer does not read
  d, u,   \* what arrived because of the last action
  ok,     \* how the sending of the last action went
  mark

vars == <<st, nd, nu, part, slow, lap, queue, stall, d, u, ok, mark>>

Zero == [k \in Conns |-> 0]
Nothing == [k \in Conns |-> <<>>]
Init ==
  /\ st = [k \in Conns |-> "on"] /\ nd = Zero /\ nu = Zero
  /\ part = Zero /\ slow = Zero /\ lap = Zero
  /\ queue = Nothing /\ stall = Zero /\ d = Nothing /\ u = Nothing /\ ok = <<>> /\ mark = ""

-----------------------------------------------------------------------------
Tag(i, z) == ToString(i) \o z
Tags(from, n, z) == [i \in 1..n |-> Tag(from + i, z)]
At(k, l) == [Nothing EXCEPT ![k] = l]
All(n, s) == [i \in 1..n |-> s]

Still == UNCHANGED <<part, slow, lap, queue, stall>>
On(k) == st[k] = "on"
End(k) ==
  /\ st' = [st EXCEPT ![k] = "off"]
  /\ part' = [part EXCEPT ![k] = 0] /\ slow' = [slow EXCEPT ![k] = 0] /\ lap' = [lap EXCEPT ![k] = 0]
  /\ queue' = [queue EXCEPT ![k] = <<>>] /\ stall' = [stall EXCEPT ![k] = 0]

(* n messages from the server, one after the other or all at once *)
Down(a, k) ==
  /\ nd' = [nd EXCEPT ![k] = @ + a.n] /\ u' = Nothing /\ ok' = <<>> /\ UNCHANGED nu
  /\ IF ~On(k) THEN d' = Nothing /\ UNCHANGED st /\ Still
     ELSE IF a.z = "o" THEN d' = Nothing /\ End(k)
     ELSE IF stall[k] = 1 THEN d' = Nothing /\ UNCHANGED <<st, part, slow, lap, stall>>
                               /\ queue' = [queue EXCEPT ![k] = @ \o Tags(nd[k], a.n, a.z)]
     ELSE d' = At(k, Tags(nd[k], a.n, a.z)) /\ UNCHANGED st /\ Still

(* n messages from the client; "call": the server answers *)
Up(a, k) ==
  /\ nu' = [nu EXCEPT ![k] = @ + a.n] /\ d' = Nothing /\ UNCHANGED nd
  /\ IF ~On(k) THEN u' = Nothing /\ ok' = All(a.n, "no") /\ UNCHANGED st /\ Still
     ELSE IF a.z = "o" THEN
       u' = Nothing /\ ok' = <<>> /\ (IF Peer(k) = "raw" /\ Tr(k) = "sse" THEN UNCHANGED st /\ Still ELSE End(k))
     ELSE u' = At(k, Tags(nu[k], a.n, a.z)) /\ ok' = All(a.n, "ok") /\ UNCHANGED st /\ Still

(* p streams down and q streams up at the same time, each of n messages *)
Streams(a, k) ==
  /\ nd' = [nd EXCEPT ![k] = @ + a.p * a.n] /\ nu' = [nu EXCEPT ![k] = @ + a.q * a.n]
  /\ UNCHANGED st /\ Still
  /\ d' = At(k, Tags(nd[k], a.p * a.n, a.z)) /\ u' = At(k, Tags(nu[k], a.q * a.n, a.z)) /\ ok' = All(a.p + a.q, "ok")

(* Requests of the peer, or messages of the websocket.  None of them does harm to anything else. *)
Post(a, k) ==
  LET one == <<Tag(nu[k] + 1, a.z)>>
      got(l, r) == u' = At(k, l) /\ ok' = r
      sent(n) == nu' = [nu EXCEPT ![k] = @ + n]
      same == UNCHANGED <<st, queue, stall>>
      calm == UNCHANGED <<part, slow, lap>> IN
  /\ d' = Nothing /\ UNCHANGED nd
  /\ CASE a.kind = "join" -> sent(2) /\ got(Tags(nu[k], 2, a.z), <<"ok">>) /\ same /\ calm
       [] a.kind = "frames" -> sent(1) /\ got(one, <<"ok">>) /\ same /\ calm
       [] a.kind = "first" -> sent(1) /\ got(<<>>, <<"ok">>) /\ part' = [part EXCEPT ![k] = nu[k] + 1] /\ same /\ UNCHANGED <<slow, lap>>
       [] a.kind = "rest" -> sent(0) /\ got(<<Tag(part[k], "s")>>, <<"ok">>) /\ part' = [part EXCEPT ![k] = 0] /\ same /\ UNCHANGED <<slow, lap>>
       [] a.kind = "empty" -> sent(0) /\ got(<<>>, <<"ok">>) /\ same /\ calm
       [] a.kind = "ping" -> sent(0) /\ got(<<>>, <<"ok">>) /\ same /\ calm
       [] a.kind \in {"big", "cut"} -> sent(1) /\ got(<<>>, <<"no">>) /\ same /\ calm
       [] a.kind = "twin" -> /\ sent(2) /\ same /\ calm
                             /\ \/ got(Tags(nu[k], 2, a.z), <<"ok", "ok">>)
                                \/ got(<<Tag(nu[k] + 1, a.z)>>, <<"ok", "no">>)
                                \/ got(<<Tag(nu[k] + 2, a.z)>>, <<"no", "ok">>)
       (* a request which takes its time *)
       [] a.kind = "slow" -> sent(1) /\ got(<<>>, <<>>) /\ slow' = [slow EXCEPT ![k] = nu[k] + 1] /\ lap' = [lap EXCEPT ![k] = 0] /\ same /\ UNCHANGED part
       [] a.kind = "beside" -> /\ sent(1) /\ same /\ UNCHANGED <<slow, part>> /\ lap' = [lap EXCEPT ![k] = 1]
                               /\ (got(one, <<"ok">>) \/ got(<<>>, <<"no">>))
       [] a.kind = "slowend" -> /\ sent(0) /\ same /\ UNCHANGED part
                                /\ slow' = [slow EXCEPT ![k] = 0] /\ lap' = [lap EXCEPT ![k] = 0]
                                /\ (got(<<Tag(slow[k], "s")>>, <<"ok">>) \/ (lap[k] = 1 /\ got(<<>>, <<"no">>)))
       [] a.kind = "slowcut" -> /\ sent(0) /\ same /\ UNCHANGED part
                                /\ slow' = [slow EXCEPT ![k] = 0] /\ lap' = [lap EXCEPT ![k] = 0] /\ got(<<>>, <<"no">>)

(* The server which is not ours fails to take a message: the sender gets to know it *)
Fail(a, k) ==
  /\ nu' = [nu EXCEPT ![k] = @ + 1] /\ UNCHANGED nd /\ d' = Nothing /\ u' = Nothing /\ ok' = <<"no">>
  /\ ((UNCHANGED st /\ Still) \/ End(k))

(* The peer stops reading, or goes on *)
Stall(a, k) ==
  /\ stall' = [stall EXCEPT ![k] = 1 - @] /\ UNCHANGED <<st, nd, nu, part, slow, lap>>
  /\ u' = Nothing /\ ok' = <<>>
  /\ IF stall[k] = 1 THEN d' = At(k, queue[k]) /\ queue' = [queue EXCEPT ![k] = <<>>]
     ELSE d' = Nothing /\ UNCHANGED queue

(* The connection ends, for both sides.  Some of the messages on the way may still arrive. *)
RECURSIVE Some(_)
Some(l) == IF l = <<>> THEN {<<>>} ELSE LET r == Some(Tail(l)) IN r \cup {<<Head(l)>> \o m : m \in r}
Ends(a, k) ==
  /\ End(k) /\ UNCHANGED <<nd, nu>> /\ u' = Nothing /\ ok' = <<>>
  /\ \E l \in Some(queue[k]) : d' = At(k, l)

(* The connection ends while a stream of n messages is under way: the beginning of it arrives *)
Race(a, k) ==
  /\ End(k) /\ ok' = <<>>
  /\ \E i \in 0..a.n :
       IF a.dir = "down"
       THEN d' = At(k, Tags(nd[k], i, a.z)) /\ u' = Nothing /\ nd' = [nd EXCEPT ![k] = @ + a.n] /\ UNCHANGED nu
       ELSE u' = At(k, Tags(nu[k], i, a.z)) /\ d' = Nothing /\ nu' = [nu EXCEPT ![k] = @ + a.n] /\ UNCHANGED nd

(* The server ends *)
Halt ==
  /\ st' = [k \in Conns |-> IF Peer(k) = "srv" THEN st[k] ELSE "off"]
  /\ LET keep(f, e) == [k \in Conns |-> IF Peer(k) = "srv" THEN f[k] ELSE e] IN
     part' = keep(part, 0) /\ slow' = keep(slow, 0) /\ lap' = keep(lap, 0) /\ queue' = keep(queue, <<>>) /\ stall' = keep(stall, 0)
  /\ UNCHANGED <<nd, nu>> /\ u' = Nothing /\ ok' = <<>>
  /\ \E l \in Some(queue[1]), m \in Some(IF NConns = 1 THEN <<>> ELSE queue[2]) : d' = [k \in Conns |-> IF k = 1 THEN l ELSE m]

Env(a) ==
  /\ mark' = a.a \o (IF a.a \in {"post", "down"} THEN a.kind ELSE IF a.a \in {"end", "race"} THEN a.how ELSE "")
  /\ CASE a.a = "down" -> Down(a, a.k)
       [] a.a \in {"up", "call"} -> Up(a, a.k)
       [] a.a = "streams" -> Streams(a, a.k)
       [] a.a = "post" -> Post(a, a.k)
       [] a.a = "fail" -> Fail(a, a.k)
       [] a.a = "stall" -> Stall(a, a.k)
       [] a.a = "end" -> Ends(a, a.k)
       [] a.a = "race" -> Race(a, a.k)
       [] a.a = "halt" -> Halt
Busy == FALSE
Internal == FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
F(f) == f \in Feats
Over == IF F("over") THEN {"o"} ELSE {}
Pars == IF F("par") THEN BOOLEAN ELSE {FALSE}
Forms(k) ==
  IF Peer(k) # "srv" \/ ~F("forms") THEN {"plain"}
  ELSE IF Tr(k) = "ws" THEN {"plain", "join", "halves", "frames"}
  ELSE {"plain", "crlf", "lines", "fields", "join", "halves", "nospace"}
Kinds(k) ==
  IF Peer(k) = "srv" THEN {}
  ELSE IF Tr(k) = "ws"
  THEN (IF Peer(k) = "go" \/ ~F("posts") THEN {}
        ELSE IF part[k] # 0 THEN {"rest", "empty"} ELSE {"join", "first", "frames", "empty"} \cup (IF stall[k] = 0 THEN {"ping"} ELSE {}))
  ELSE (IF ~F("posts") THEN {}
        ELSE IF part[k] # 0 THEN {"rest", "empty", "big", "cut"}
        ELSE IF slow[k] # 0 THEN {}
        ELSE {"join", "first", "empty", "big", "cut", "twin"})
       \cup (IF ~F("slow") \/ part[k] # 0 \/ Peer(k) = "go" THEN {} ELSE IF slow[k] # 0 THEN {"beside", "slowend", "slowcut"} ELSE {"slow"})
Free(k) == part[k] = 0 /\ slow[k] = 0  \* the way up is free
Hows(k) == IF Peer(k) = "go" THEN {"stop", "drop", "abort"} ELSE IF Peer(k) = "raw" THEN {"drop", "abort"} \cup (IF Free(k) THEN {"bye"} ELSE {}) ELSE {"stop", "drop", "eof", "bye"}

ConnActs(k) ==
  LET dn == nd[k] + MaxN <= MaxSent
      un == nu[k] + MaxN <= MaxSent IN
  (IF dn /\ (stall[k] = 0 \/ queue[k] = <<>>) /\ (On(k) \/ Peer(k) # "srv")
   THEN {[a |-> "down", k |-> k, n |-> n, z |-> z, par |-> p, kind |-> f] : n \in 1..(IF On(k) THEN MaxN ELSE 1), z \in Sizes, p \in (IF Peer(k) = "srv" THEN {FALSE} ELSE Pars), f \in Forms(k)}
        \cup {[a |-> "down", k |-> k, n |-> 1, z |-> z, par |-> FALSE, kind |-> "plain"] : z \in (IF On(k) /\ stall[k] = 0 /\ Peer(k) = "go" THEN Over ELSE {})}
   ELSE {})
  \cup (IF un /\ Free(k)
        THEN {[a |-> "up", k |-> k, n |-> n, z |-> z, par |-> p] : n \in 1..(IF On(k) THEN MaxN ELSE 1), z \in Sizes,
                 p \in (IF Peer(k) = "raw" /\ Tr(k) = "sse" THEN {FALSE} ELSE Pars)}
             \cup {[a |-> "up", k |-> k, n |-> 1, z |-> z, par |-> FALSE] : z \in (IF On(k) /\ stall[k] = 0 /\ Peer(k) # "srv" THEN Over ELSE {})}
        ELSE {})
  \cup (IF un /\ Free(k) /\ F("call") /\ Peer(k) = "go" /\ On(k)
        THEN {[a |-> "call", k |-> k, n |-> n, z |-> z, par |-> p] : n \in 1..MaxN, z \in Sizes, p \in Pars}
        ELSE {})
  \cup (IF un /\ dn /\ F("streams") /\ Free(k) /\ Peer(k) = "go" /\ On(k)
        THEN {[a |-> "streams", k |-> k, p |-> p, q |-> q, n |-> n, z |-> z] :
                 p \in 0..2, q \in 0..2, n \in {n \in 1..MaxN : nd[k] + 2 * n <= MaxSent /\ nu[k] + 2 * n <= MaxSent}, z \in Sizes}
        ELSE {})
  \cup (IF un /\ On(k)
        THEN {[a |-> "post", k |-> k, kind |-> i, z |-> z] : i \in Kinds(k) \cap {"join", "frames", "twin", "beside"}, z \in Sizes}
             \cup {[a |-> "post", k |-> k, kind |-> i, z |-> "s"] : i \in Kinds(k) \ {"join", "frames", "twin", "beside"}}
        ELSE {})
  \cup (IF F("fail") /\ un /\ Peer(k) = "srv" /\ Tr(k) = "sse" /\ On(k) THEN {[a |-> "fail", k |-> k, how |-> h] : h \in {"status", "cut"}} ELSE {})
  \cup (IF F("stall") /\ Peer(k) = "raw" /\ On(k) /\ part[k] = 0 THEN {[a |-> "stall", k |-> k]} ELSE {})
  \cup (IF On(k) THEN {[a |-> "end", k |-> k, how |-> h] : h \in (IF F("ends") THEN Hows(k) ELSE {})} ELSE {})
  \cup (IF F("race") /\ un /\ dn /\ Free(k) /\ Peer(k) = "go" /\ On(k)
        THEN {[a |-> "race", k |-> k, dir |-> r, n |-> MaxN, z |-> z, how |-> h] : r \in {"down", "up"}, z \in Sizes, h \in Hows(k)}
        ELSE {})

EnvActs ==
  UNION {ConnActs(k) : k \in Conns}
  \cup (IF F("ends") /\ (\E k \in Conns : On(k) /\ Peer(k) # "srv") THEN {[a |-> "halt"]} ELSE {})

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
(* Connections which have ended are left alone mostly, and they do not end too early *)
WalkActs ==
  LET live == {k \in Conns : On(k)}
      k == IF live = {} \/ RandomElement(1..8) = 1 THEN RandomElement(Conns) ELSE RandomElement(live)
      acts == ConnActs(k)
      kinds == {a.a : a \in acts} \ (IF RandomElement(1..8) = 1 THEN {} ELSE {"end", "race"})
      i == RandomElement(kinds) IN
  IF kinds = {} THEN Draw(UNION {ConnActs(c) : c \in Conns}) ELSE Draw({a \in acts : a.a = i})

-----------------------------------------------------------------------------
(* C18 *)
TypeOK ==
  /\ \A k \in Conns : st[k] \in {"on", "off"} /\ part[k] <= nu[k] /\ slow[k] <= nu[k]
  /\ \A k \in Conns : st[k] = "off" => part[k] = 0 /\ slow[k] = 0 /\ queue[k] = <<>> /\ stall[k] = 0
(* nobody else gets a message, and nothing comes of a connection which has ended *)
OnlyThere == mark = "halt" \/ Cardinality({k \in Conns : d[k] # <<>> \/ u[k] # <<>>}) <= 1
Apart == \A k \in Conns : part[k] = 0 \/ slow[k] = 0
Forever == [][\A k \in Conns : st[k] = "off" => st'[k] = "off" /\ d'[k] = <<>> /\ u'[k] = <<>>]_vars
(* a connection which does not take part in an action does not change *)
Alone == [][\A k \in Conns : nd'[k] = nd[k] /\ nu'[k] = nu[k] /\ st'[k] = st[k] =>
              (d'[k] = <<>> \/ stall[k] = 1) /\ (u'[k] = <<>> \/ part[k] # part'[k] \/ slow[k] # slow'[k])]_vars
(* as long as a connection is up, every message which is not rejected arrives *)
NoLoss == [][\A k \in Conns : st'[k] = "on" /\ st[k] = "on" =>
              Len(d'[k]) + Len(queue'[k]) = nd'[k] - nd[k] + Len(queue[k])]_vars
Spec == Init /\ [][\E a \in EnvActs : Env(a)]_vars
=============================================================================
