----------------------------- MODULE Gen_Negotiate -----------------------------
(* Environment schedules of Negotiate: the environment acts when no action is in progress. *)
EXTENDS Negotiate, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF Busy THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ Len(hist) = MaxLen) => PrintT(ToJson(hist))
=============================================================================
