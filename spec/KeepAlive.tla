------------------------------ MODULE KeepAlive ------------------------------
(***************************************************************************)
(* Keep-alive pings and the timeout of one connection.                     *)
(*                                                                         *)
(* Time passes in ticks.  This side never leaves the connection without a  *)
(* message for longer than K ticks; it ends the connection with an error   *)
(* when nothing was received for T ticks, and only then.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS K, T,
          C,       \* ticks which a peer that does not read can delay the end
          Recvs,   \* what the peer sends: SUBSET {"ping", "call", "hang", "cancel", "notify", "item", "odd", "part"}
          Sends,   \* what this side sends: SUBSET {"note", "big", "bad", "item"}
          Jump,    \* ticks which pass at once
          Ends,    \* SUBSET {"eof", "bye"}
          Feats    \* SUBSET {"stall", "par"}

VARIABLES
  st,      \* up, closing, over
  quiet,   \* ticks since something was received
  idle,    \* ticks since something was written
  stalled, \* the peer does not read
  half,    \* the first half of a message was received
  left,    \* closing: ticks until the connection has to be over
  why,     \* timeout, peer
  wrote,   \* something was written since the last action of the environment
  todo,    \* ticks which are to pass
  mark

vars == <<st, quiet, idle, stalled, half, left, why, wrote, todo, mark>>
conn == <<st, quiet, idle, half, left, why, wrote>>

Init ==
  /\ st = "up" /\ quiet = 0 /\ idle = 0 /\ stalled = FALSE /\ half = FALSE /\ left = 0
  /\ why = "" /\ wrote = FALSE /\ todo = 0 /\ mark = ""

-----------------------------------------------------------------------------
(* Anything may be written on the way to the end *)
End(w, s) == /\ st' = s /\ why' = w /\ quiet' = 0 /\ idle' = 0 /\ half' = FALSE /\ wrote' \in BOOLEAN
             /\ left' = (IF s = "closing" THEN C ELSE 0)

(* What is blocked because the peer does not read counts as written *)
Write == idle' = 0 /\ wrote' = TRUE
Silent == \/ idle' = idle /\ wrote' = FALSE
          \/ stalled /\ Write
(* A tick: a ping is necessary when it was silent for K ticks, and possible at any time *)
Calm == \/ idle' = 0 /\ wrote' = TRUE
        \/ idle + 1 < K /\ idle' = idle + 1 /\ wrote' = FALSE

Answered == {"call", "odd"}
Recv(k) ==
  IF k = "part" THEN half' = ~half /\ quiet' = (IF half THEN 0 ELSE quiet) /\ Silent /\ UNCHANGED <<st, left, why>>
  ELSE /\ quiet' = 0
       /\ IF k \in Answered THEN Write ELSE Silent
       /\ UNCHANGED <<st, half, left, why>>
(* Something which can not be sent is not sent *)
Send(k) == (IF k = "bad" THEN Silent ELSE Write) /\ UNCHANGED <<st, quiet, half, left, why>>

Over == UNCHANGED <<st, quiet, idle, half, left, why>> /\ wrote' \in (IF st = "over" THEN {FALSE} ELSE BOOLEAN)
Env(a) ==
  /\ todo' = IF a.a = "tick" THEN a.n ELSE 0
  /\ stalled' = CASE a.a = "stall" -> TRUE [] a.a = "unstall" \/ (a.a = "end" /\ a.how = "eof") -> FALSE [] OTHER -> stalled
  /\ IF a.a = "tick" THEN UNCHANGED <<st, quiet, idle, half, left, why>> /\ wrote' = FALSE
     ELSE IF st = "over" \/ (st = "closing" /\ ~(a.a = "unstall" \/ (a.a = "end" /\ a.how = "eof"))) THEN Over
     ELSE IF st = "closing" THEN End(why, "over")
     ELSE CASE a.a = "recv" -> Recv(a.k)
            [] a.a = "send" -> Send(a.k)
            [] a.a = "both" -> /\ quiet' = 0 /\ Write /\ UNCHANGED <<st, half, left, why>>
            [] a.a = "stall" -> Silent /\ UNCHANGED <<st, quiet, half, left, why>>
            [] a.a = "unstall" -> Silent /\ UNCHANGED <<st, quiet, half, left, why>>
            [] a.a = "end" -> End("peer", "over") \/ (stalled /\ a.how = "bye" /\ End("peer", "closing"))
  /\ mark' = IF a.a \in {"recv", "send"} THEN a.k ELSE IF a.a = "both" THEN a.r ELSE IF st = "over" THEN "late" ELSE ""

Busy == todo > 0
Tick ==
  /\ Busy /\ todo' = todo - 1
  /\ CASE st = "over" -> Over
       [] st = "closing" -> \/ End(why, "over")
                            \/ left > 1 /\ left' = left - 1 /\ wrote' \in BOOLEAN /\ UNCHANGED <<st, quiet, idle, half, why>>
       [] quiet + 1 >= T -> End("timeout", "over") \/ (stalled /\ End("timeout", "closing"))
       [] OTHER -> quiet' = quiet + 1 /\ Calm /\ UNCHANGED <<st, half, left, why>>
  /\ UNCHANGED <<mark, stalled>>
Internal == Tick

-----------------------------------------------------------------------------
(* The environment actions worth exploring.  While a message is under way, only its rest can arrive *)
Can(k) == half => k = "part"
If(c, S) == IF c THEN S ELSE {}
RecvActs == {[a |-> "recv", k |-> k] : k \in {k \in Recvs : Can(k)}}
SendActs == {[a |-> "send", k |-> k] : k \in Sends}
EnvActs == If(st = "up", RecvActs \cup SendActs \cup {[a |-> "tick", n |-> n] : n \in 1..Jump}
             \cup If("par" \in Feats, {[a |-> "both", r |-> r, k |-> k] : r \in {r \in Recvs \ {"part"} : Can(r)}, k \in Sends \ {"bad"}})
             \cup If(~half, {[a |-> "end", how |-> e] : e \in Ends}))
           \cup If(st = "closing", {[a |-> "tick", n |-> 1]})
           \cup If("stall" \in Feats /\ st # "over", {[a |-> IF stalled THEN "unstall" ELSE "stall"]})
           \cup If(st = "over" /\ mark # "late", {[a |-> "tick", n |-> 1], [a |-> "send", k |-> "note"]})
Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Least(a, b) == IF a < b THEN a ELSE b
(* mostly, the peer is just in time *)
WalkActs ==
  IF st # "up" \/ RandomElement(1..25) = 1 THEN EnvActs
  ELSE If(quiet + 1 < T, {[a |-> "tick", n |-> RandomElement(1..Least(Jump, T - 1 - quiet))]})
       \cup If(quiet + 2 >= T \/ RandomElement(1..3) = 1, Draw(RecvActs))
       \cup If(RandomElement(1..3) = 1, Draw(SendActs))
       \cup If("par" \in Feats /\ RandomElement(1..6) = 1 /\ ~half, {[a |-> "both", r |-> RandomElement(Recvs \ {"part"}), k |-> RandomElement(Sends \ {"bad"})]})
       \cup If("stall" \in Feats /\ RandomElement(1..8) = 1, {[a |-> IF stalled THEN "unstall" ELSE "stall"]})

-----------------------------------------------------------------------------
(* C14 *)
TypeOK == st \in {"up", "closing", "over"} /\ quiet \in 0..T /\ idle \in 0..K /\ left \in 0..C
NeverIdle == st = "up" => idle < K
NeverQuiet == st = "up" => quiet < T
ClosesInTime == st = "closing" => left > 0
(* the timeout ends a connection only after T ticks without anything received *)
OnlyThen == [][(why' = "timeout" /\ why = "") => quiet = T - 1]_vars
Forever == [][st = "over" => st' = "over" /\ ~wrote']_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : Env(a))]_vars
=============================================================================
