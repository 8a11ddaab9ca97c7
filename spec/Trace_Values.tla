---------------------------- MODULE Trace_Values ----------------------------
(* Is each recorded execution a behaviour of Values?  obs is what arrived because of the action act. *)
EXTENDS Values, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
Ats == {"arg", "result", "first", "second", "down", "up", "note", "callee", "back"}
At1(s, at) == LET f == SelectSeq(s, LAMBDA e : e.at = at) IN [i \in DOMAIN f |-> f[i].v]
Obs(o) == Len(o.got) = Len(got) /\ \A at \in Ats : At1(o.got, at) = At1(got, at)
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
