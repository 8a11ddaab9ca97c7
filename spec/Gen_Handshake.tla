---------------------------- MODULE Gen_Handshake ----------------------------
(* Environment schedules of Handshake: the environment acts when everything which arrived is processed. *)
EXTENDS Handshake, Json
CONSTANTS MaxLen, Walk
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \/ Internal /\ UNCHANGED hist
         \/ ~Busy /\ Len(hist) < MaxLen /\ \E a \in (IF Walk THEN WalkActs ELSE EnvActs) : Env(a) /\ hist' = Append(hist, a)
GView == vars
PrintTransition == (hist' # hist /\ ~Walk) => PrintT(ToJson(hist'))
PrintWalk == (Walk /\ ~Busy /\ (Len(hist) = MaxLen \/ (st = "over" /\ Len(hist) > 5))) => PrintT(ToJson(hist))
=============================================================================
