----------------------------- MODULE Trace_Hub -----------------------------
(* Is each recorded execution a behaviour of Hub?  obs is the accumulated
   observation at the quiescent point after the environment action act. *)
EXTENDS Hub, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
Steps == Traces[tr].steps
Range(s) == {s[i] : i \in DOMAIN s}
WasUp(k) == st[k] \in {"up", "gone"}
Ok(b) == IF b THEN <<"ok">> ELSE <<>>
ConnMatches(k, o) ==
  /\ o.st = (CASE st[k] = "none" -> "none" [] st[k] \in {"gone", "refused"} -> "ended" [] OTHER -> "serving")
  /\ o.con = Ok(WasUp(k))            \* C08: exactly once, with the right id
  /\ o.dis = Ok(st[k] = "gone")
  /\ (down /\ o.hs \in {<<>>, <<"ok">>, <<"err">>}) \/ o.hs = Ok(WasUp(k)) \/ (st[k] = "refused" /\ o.hs = <<"err">>)
  /\ o.bad = <<>>
  /\ Len(o.rec) = Cardinality(Range(o.rec))  \* C05: nothing twice
  /\ IF st[k] = "gone" THEN Range(o.rec) \subseteq rec[k] \cup pend[k]
     ELSE Range(o.rec) = rec[k]
  /\ o.inst = IF PerConn /\ WasUp(k) THEN 1 ELSE 0
Obs(o) ==
  /\ \A k \in Conns : ConnMatches(k, o.conns[k])
  /\ o.made = IF PerConn THEN Cardinality({k \in Conns : WasUp(k)}) ELSE 0
  /\ o.shared = 0
  /\ o.leaked = <<>> /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(Steps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(Steps)
            /\ Env(Steps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
