----------------------------- MODULE Trace_Frame -----------------------------
(* Is each recorded execution a behaviour of Frame?  obs is the accumulated
   observation at the quiescent point after the environment action act. *)
EXTENDS Frame, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
(* what ran: the number of the message, "ok" when its argument was intact; what was answered *)
Ran(i) == IF seen[i] = "d" THEN <<"ok">> ELSE <<>>
Obs(o) ==
  /\ \A i \in Msgs : o.ran[i] = Ran(i) /\ (o.ans[i] = Ran(i) \/ (st = "ended" /\ o.ans[i] = <<>>) \/ (i = up /\ o.ans[i] = <<>>))
  /\ o.items = [j \in DOMAIN items |-> ToString(items[j])]
  /\ o.st = st
  /\ o.notes = notes
  /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
