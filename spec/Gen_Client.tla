----------------------------- MODULE Gen_Client -----------------------------
(* Environment schedules of Client: the environment acts when no action is in progress. *)
EXTENDS Client, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF Busy THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : Allowed(a) /\ Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ (Len(hist) = MaxLen \/ (s.ph = "closed" /\ Len(hist) > 6))) => PrintT(ToJson(hist))
=============================================================================
