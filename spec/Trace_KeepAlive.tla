--------------------------- MODULE Trace_KeepAlive ---------------------------
(* Is each recorded execution a behaviour of KeepAlive?  obs is what was seen between the
   environment action act and the quiescent point after it.  Each tick is a step of its own. *)
EXTENDS KeepAlive, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
Obs(o) ==
  /\ o.st = IF st = "over" THEN "over" ELSE "up"
  /\ o.w = IF wrote THEN <<"written">> ELSE <<>>
  /\ IF st # "over" THEN o.err = <<>>
     ELSE o.err = <<"error">> \/ (why # "timeout" /\ o.err = <<>>)
  /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
