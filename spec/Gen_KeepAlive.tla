---------------------------- MODULE Gen_KeepAlive ----------------------------
(* Environment schedules of KeepAlive: the environment acts when nothing happens without time passing. *)
EXTENDS KeepAlive, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF Busy THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ (Len(hist) = MaxLen \/ (st = "over" /\ Len(hist) > 3))) => PrintT(ToJson(hist))
=============================================================================
