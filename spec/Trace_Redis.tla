---------------------------- MODULE Trace_Redis ----------------------------
(* Is each recorded execution a behaviour of Redis?   *)
EXTENDS Redis, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
Obs(o) == /\ o.live = [k \in Conns |-> IF on[k] = 0 THEN "off" ELSE "on"]
          /\ \A k \in Conns : Len(o.got[k]) = Cardinality(got[k]) /\ {o.got[k][i] : i \in DOMAIN o.got[k]} = got[k]
          /\ Len(o.got) = NConns /\ o.stale = <<>> /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
