----------------------------- MODULE Gen_Caller -----------------------------
(* Environment schedules of Caller: the environment acts when no action is in progress. *)
EXTENDS Caller, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF Busy THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : ParOk(a) /\ Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ (Len(hist) = MaxLen \/ (st = "closed" /\ Len(hist) > 6))) => PrintT(ToJson(hist))
=============================================================================
