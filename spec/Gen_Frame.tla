------------------------------ MODULE Gen_Frame ------------------------------
(* Environment schedules of Frame: the environment acts when everything which arrived is processed. *)
EXTENDS Frame, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == IF Busy THEN Internal /\ UNCHANGED hist
         ELSE Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ (Len(hist) = MaxLen \/ (st = "ended" /\ Len(hist) > 3) \/ (n = NMsg /\ cur.left = 0))) => PrintT(ToJson(hist))
=============================================================================
