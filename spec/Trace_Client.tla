---------------------------- MODULE Trace_Client ----------------------------
(* Is each recorded execution a behaviour of Client?  obs is the accumulated
   observation at the quiescent point after the environment action act. *)
EXTENDS Client, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
N == Len(Traces)
TInit == Init /\ tr \in 1..N /\ l = 0
TrSteps == Traces[tr].steps
IsPrefix2(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
ObserverMatches(o, x) ==
  CASE s.ost[o] = "none"     -> x.got = <<>> /\ ~x.closed
    [] s.ost[o] = "read"     -> x.got = s.oq[o] /\ ~x.closed
    [] s.ost[o] = "lazy"     -> x.got = <<>> /\ ~x.closed
    [] s.ost[o] = "off"      -> IsPrefix2(x.got, s.oq[o]) /\ Len(x.got) >= base[o] /\ x.closed
    [] s.ost[o] = "lost"     -> x.got = <<>> /\ ~x.closed
    [] s.ost[o] = "lostread" -> IsPrefix2(x.got, s.oq[o]) /\ x.closed
WaitMatches(w, x) ==
  CASE s.wr[w] = "any" -> x \in {<<"wait">>, <<"nil">>, <<"err">>}
    [] s.wr[w] = "?"   -> x \in {<<"nil">>, <<"err">>}
    [] OTHER           -> x = <<s.wr[w]>>
(* what was written to connection c *)
ConnMatches(c, x) ==
  CASE s.cs[c] \in {"none", "dialing", "nodial", "stalled"} -> x = <<>>
    [] s.cs[c] = "maybe"        -> x \in {<<>>, <<"hs">>}
    [] s.cs[c] \in {"hs", "up"} -> x = <<"hs">>
    [] s.cs[c] = "failed"       -> x = <<"hs">> \/ (s.stopped /\ x = <<>>)
    [] s.cs[c] = "ended"        -> x \in {<<"hs">>, <<"hs", "close">>}
Obs(o) ==
  /\ o.st = s.st
  /\ \/ o.err = <<s.err>>
     \/ s.err = "?" /\ o.err \in {<<"nil">>, <<"other">>}
     \/ s.stopped /\ s.ph = "closed" /\ o.err \in {<<"ctx">>, <<"nil">>}
  /\ o.dials = s.conn
  /\ Len(o.conns) = NConns /\ Len(o.obs) = NObs /\ Len(o.waits) = NWaits
  /\ \A c \in 1..NConns : ConnMatches(c, o.conns[c])
  /\ \A i \in Observers : ObserverMatches(i, o.obs[i])
  /\ \A w \in Waits : WaitMatches(w, o.waits[w])
  /\ o.stops = IF s.ph = "closed" THEN s.stops ELSE 0
  /\ o.odd = <<>>
Match == IF l = 0 THEN TRUE ELSE Obs(TrSteps[l].obs)
TNext == \/ Internal /\ UNCHANGED <<tr, l>>
         \/ /\ ~Busy /\ Match = TRUE  \* evaluated as one formula, not as alternatives
            /\ l < Len(TrSteps)
            /\ Env(TrSteps[l + 1].act)
            /\ l' = l + 1 /\ UNCHANGED tr
Progress == IF ~Busy /\ Match THEN TLCSet(tr, IF TLCGet(tr) > l THEN TLCGet(tr) ELSE l) ELSE TRUE
TStart == \A i \in 1..N : TLCSet(i, 0)
ASSUME TStart
Report == PrintT(ToJson([i \in 1..N |-> TLCGet(i)]))
=============================================================================
