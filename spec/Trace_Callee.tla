---------------------------- MODULE Trace_Callee ----------------------------
(* Is each recorded execution a behaviour of Callee?  A trace is a sequence
   of steps [act, obs]; obs is the accumulated observation at the quiescent
   point after the environment action act. *)
EXTENDS Callee, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
Obs == [out |-> [k \in Calls |-> out[k]], conn |-> conn, log |-> [k \in Calls |-> log[k]], alive |-> alive]
Match == IF l = 0 THEN TRUE ELSE Obs = Steps[l].obs
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~ENABLED Internal /\ Match
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~ENABLED Internal /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
