------------------------------ MODULE Handshake ------------------------------
(***************************************************************************)
(* The beginning of a connection.  The peer sends tokens (complete and     *)
(* incomplete handshake messages, messages of the protocol, the end of the *)
(* transport), cut into chunks; the user of this side sends messages.      *)
(* The handshake has to be complete within H ticks.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Role,    \* the role of the code: "server" or "client"
          Tokens,  \* SUBSET {"ok", "okx", "error", "bad", "part", "rest", "inv"}
          NInv,    \* invocations of the peer
          NSend,   \* messages sent by the user of the code
          Batch,   \* tokens in one chunk
          H,
          Ends,    \* SUBSET {"eof", "err", "stop"}
          Feats    \* SUBSET {"par"}

VARIABLES
  st,     \* new (client only), hs, bad, refused, up, over
  left,   \* ticks until the handshake has to be complete
  part,   \* the first half of a handshake message arrived
  inv,    \* invocations of the peer
  ran,    \* .. which were dispatched
  sent,   \* messages of the user
  out,    \* .. which were written
  failed, \* .. which could not be written
  was,    \* how the handshake ended: "", ok, refused, stopped
  todo

vars == <<st, left, part, inv, ran, sent, out, failed, was, todo>>

Init ==
  /\ st = (IF Role = "server" THEN "hs" ELSE "new")
  /\ left = (IF Role = "server" THEN H ELSE 0)
  /\ part = FALSE /\ inv = 0 /\ ran = {} /\ sent = 0 /\ out = {} /\ failed = {} /\ was = ""
  /\ todo = {}

-----------------------------------------------------------------------------
Waiting == {j \in 1..sent : j \notin out \cup failed}
OverAs(w) ==
  /\ st' = "over" /\ left' = 0 /\ was' = w
  \* a client reports what was not sent; a server does not send to who is not connected
  /\ failed' = failed \cup Waiting
  /\ UNCHANGED <<part, inv, ran, sent, out>>
Over == OverAs(was)
Same == UNCHANGED <<st, left, part, inv, ran, sent, out, failed, was>>

Success ==
  /\ st' = "up" /\ left' = 0 /\ was' = "ok" /\ part' = FALSE
  /\ out' = (IF Role = "client" THEN out \cup Waiting ELSE out)
  /\ UNCHANGED <<inv, ran, sent, failed>>

(* a token of the peer arrives *)
Token(x) ==
  CASE x.t = "inv" -> IF st = "up" THEN ran' = ran \cup {x.i} /\ UNCHANGED <<st, left, part, inv, sent, out, failed, was>>
                      ELSE IF st = "hs" THEN st' = "bad" /\ UNCHANGED <<left, part, inv, ran, sent, out, failed, was>>
                      ELSE Same
    [] x.t \in {"eof", "err"} -> IF st \in {"hs", "bad", "refused", "up"} THEN Over ELSE Same
    [] OTHER -> IF st # "hs" THEN Same
                ELSE CASE x.t = "part" /\ ~part -> part' = TRUE /\ UNCHANGED <<st, left, inv, ran, sent, out, failed, was>>
                       [] (x.t \in {"ok", "okx"} /\ ~part) \/ (x.t = "rest" /\ part) -> Success
                       [] x.t = "error" /\ ~part -> st' = "refused" /\ was' = "refused" /\ UNCHANGED <<left, part, inv, ran, sent, out, failed>>
                       [] OTHER -> st' = "bad" /\ UNCHANGED <<left, part, inv, ran, sent, out, failed, was>>

Tick == IF left > 1 THEN left' = left - 1 /\ UNCHANGED <<st, part, inv, ran, sent, out, failed, was>>
        ELSE IF left = 1 THEN Over ELSE Same

(* messages are only sent to who is connected; a client waits for the connection *)
Send(j) ==
  /\ IF st = "up" THEN out' = out \cup {j} /\ UNCHANGED failed
     ELSE IF Role = "server" \/ st \in {"new", "over"} THEN failed' = failed \cup {j} /\ UNCHANGED out
     ELSE UNCHANGED <<out, failed>>
  /\ UNCHANGED <<st, left, part, inv, ran, sent, was>>

Start == st' = "hs" /\ left' = H /\ UNCHANGED <<part, inv, ran, sent, out, failed, was>>
Stop == IF st \in {"hs", "bad", "refused", "up"} THEN OverAs(IF was = "" THEN "stopped" ELSE was) ELSE Same

(* the next thing which is in progress *)
NumberOf(ts, j) == inv + Cardinality({k \in 1..j : ts[k] = "inv"})
Do(a) ==
  CASE a.a = "chunk" -> Token(Head(a.ts)) /\ todo' = IF Len(a.ts) = 1 THEN todo \ {a} ELSE (todo \ {a}) \cup {[a EXCEPT !.ts = Tail(@)]}
    [] a.a = "send"  -> Send(a.j) /\ todo' = todo \ {a}
    [] a.a = "tick"  -> Tick /\ todo' = todo \ {a}
    [] a.a = "start" -> Start /\ todo' = todo \ {a}
    [] a.a = "stop"  -> Stop /\ todo' = todo \ {a}

Chunk(ts) == [a |-> "chunk", ts |-> [j \in DOMAIN ts |-> [t |-> ts[j], i |-> NumberOf(ts, j)]]]
Expand(a) == IF a.a = "chunk" THEN Chunk(a.ts) ELSE IF a.a = "send" THEN a ELSE a
Invs(a) == IF a.a = "chunk" THEN Cardinality({k \in DOMAIN a.ts : a.ts[k] = "inv"}) ELSE 0

Env(a) ==
  LET acts == IF a.a = "par" THEN {a.acts[j] : j \in DOMAIN a.acts} ELSE {a}
      s == {b \in acts : b.a = "send"}
      c == {b \in acts : b.a = "chunk"} IN
  /\ todo' = {Expand(b) : b \in acts}
  /\ sent' = sent + Cardinality(s)
  /\ inv' = inv + (IF c = {} THEN 0 ELSE Invs(CHOOSE b \in c : TRUE))
  /\ UNCHANGED <<st, left, part, ran, out, failed, was>>

Busy == todo # {}
(* a server may refuse what is bad at once, or let it time out *)
GiveUp == st \in {"bad", "refused"} /\ Over /\ UNCHANGED todo
Internal == (Busy /\ \E a \in todo : Do(a)) \/ GiveUp

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
Able(ts) == inv + Cardinality({k \in DOMAIN ts : ts[k] = "inv"}) <= NInv
StartActs == IF st = "new" THEN {[a |-> "start"]} ELSE {}
(* one complete handshake message only, and before everything else; the end comes last *)
Heads == {<<x>> : x \in Tokens \ {"rest"}} \cup (IF "part" \in Tokens THEN {<<"part", "rest">>, <<"part", "ok">>, <<"rest">>} ELSE {})
Invocations == {<<>>} \cup (IF "inv" \in Tokens THEN UNION {{[k \in 1..j |-> "inv"]} : j \in 1..Batch} ELSE {})
Tails == {<<>>} \cup {<<e>> : e \in Ends \cap {"eof", "err"}}
Chunks == {x \in {h \o i \o e : h \in (IF st = "up" THEN {<<>>} ELSE Heads), i \in Invocations, e \in Tails} : x # <<>> /\ Able(x) /\ Len(x) <= Batch}
ChunkActs == IF st \in {"new", "over"} THEN {} ELSE {[a |-> "chunk", ts |-> ts] : ts \in Chunks}
SendActs == IF sent < NSend THEN {[a |-> "send", j |-> sent + 1]} ELSE {}
TickActs == IF left > 0 THEN {[a |-> "tick"]} ELSE {}
StopActs == IF "stop" \in Ends /\ st \notin {"new", "over"} THEN {[a |-> "stop"]} ELSE {}
ParActs == IF "par" \notin Feats THEN {} ELSE {[a |-> "par", acts |-> <<c, d>>] : c \in ChunkActs, d \in SendActs \cup StopActs}
EnvActs == StartActs \cup ChunkActs \cup SendActs \cup TickActs \cup StopActs \cup ParActs

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
WalkActs == StartActs \cup Draw(ChunkActs) \cup Draw(ChunkActs) \cup SendActs \cup TickActs \cup Draw(ParActs)
            \cup (IF RandomElement(1..9) = 1 THEN StopActs ELSE {})

-----------------------------------------------------------------------------
(* C13 *)
TypeOK == st \in {"new", "hs", "bad", "refused", "up", "over"} /\ ran \subseteq 1..NInv
NothingBefore == was # "ok" => ran = {} /\ out = {}
InTime == (~Busy /\ st \in {"hs", "bad", "refused"}) => left > 0
Resolved == (~Busy /\ st = "over") => Waiting = {}
(* success only comes from a valid handshake *)
NeverAfterwards == [][(st \in {"bad", "refused", "over"} => st' # "up") /\ (was # "" => was' = was)]_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : Env(a))]_vars
=============================================================================
