----------------------------- MODULE Gen_Callee -----------------------------
(* Environment schedules of Callee: the environment acts at quiescence. *)
EXTENDS Callee, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF ENABLED Internal THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in EnvActs : Env(a) /\ hist' = Append(hist, a)
GView == vars
(* one schedule per transition of the abstract graph *)
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
(* one schedule per random walk *)
PrintWalk == (Walk /\ ~ENABLED Internal /\ (Len(hist) = MaxLen \/ EnvActs = {})) => PrintT(ToJson(hist))
=============================================================================
