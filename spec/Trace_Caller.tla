---------------------------- MODULE Trace_Caller ----------------------------
(* Is each recorded execution a behaviour of Caller?  obs is the accumulated
   observation at the quiescent point after the environment action act. *)
EXTENDS Caller, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
(* what was written for call i: the invocation; when the connection ended meanwhile, it may or may not have been written *)
Expected(i) == IF kind[i] = "pull" THEN "stream" ELSE IF kind[i] = "push" THEN "push" ELSE "call"
Broken(i) == ph[i] = "done" /\ got[i] # <<>> /\ got[i][Len(got[i])] = "x"
CallMatches(i, o) ==
  /\ o.got = IF held[i] > 0 THEN SubSeq(got[i], 1, held[i] - 1) ELSE got[i]
  /\ o.closed = (ph[i] = "done" /\ held[i] = 0)
  /\ \/ o.sent = IF wired[i] # 0 THEN <<Expected(i)>> ELSE <<>>
     \/ Broken(i) /\ o.sent \in {<<>>, <<Expected(i)>>}
  /\ \/ o.up = up[i]
     \/ /\ wired[i] # conn \/ st # "up"
        /\ \E k \in 0..Len(pq[i]) : o.up = SubSeq(pq[i], 1, k)
Obs(o) ==
  /\ o.st = st
  /\ \A i \in Calls : CallMatches(i, o.calls[i])
  /\ o.served = Cardinality(mark \ {0, 1000})
  /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
