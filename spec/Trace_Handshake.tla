--------------------------- MODULE Trace_Handshake ---------------------------
(* Is each recorded execution a behaviour of Handshake?  obs is the accumulated
   observation at the quiescent point after the environment action act. *)
EXTENDS Handshake, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
(* what is on the wire: the handshake message of this side, then messages *)
First(o) ==
  IF Role = "client" THEN o.first = IF st = "new" THEN <<>> ELSE <<"request">>
  ELSE CASE was = "ok" -> o.first = <<"ok">>
         [] was = "refused" -> o.first = <<"error">>
         [] was = "stopped" -> o.first \in {<<>>, <<"ok">>, <<"error">>}
         [] st = "hs" -> o.first = <<>>
         [] OTHER -> o.first \in {<<>>, <<"error">>}
Obs(o) ==
  /\ First(o)
  /\ o.ran = [i \in 1..NInv |-> IF i \in ran THEN <<"ok">> ELSE <<>>]
  /\ \A j \in 1..NSend :
       /\ o.out[j] = (IF j \in out THEN <<"ok">> ELSE <<>>) \/ (st = "over" /\ j \in out /\ o.out[j] = <<>>)
       /\ Role = "client" => /\ o.err[j] = (IF j \in failed THEN <<"err">> ELSE <<>>) \/ (st = "over" /\ j \in out)
                             /\ (st = "over" /\ j \in out /\ o.out[j] = <<>>) => o.err[j] = <<"err">>
       /\ Role = "server" => o.err[j] = <<>>
  /\ o.st = CASE st = "up" -> "up" [] st = "over" -> "over" [] st = "new" -> "new" [] OTHER -> "hs"
  /\ o.callbacks = (IF Role = "server" /\ was = "ok" THEN (IF st = "over" THEN <<"connected", "disconnected">> ELSE <<"connected">>) ELSE <<>>)
  /\ o.failed = (st = "over" /\ was # "ok")
  /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
