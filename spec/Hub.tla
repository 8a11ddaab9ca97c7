-------------------------------- MODULE Hub --------------------------------
(***************************************************************************)
(* One server and its connections: who is connected, who is in which group,*)
(* which messages reach whom, when callbacks run, whose items and hubs are *)
(* used.                                                                   *)
(*                                                                         *)
(* Connections are numbered 1..NConns in the order in which they are       *)
(* opened; each has a connection id, and an id may be used again when the  *)
(* connection that had it before has ended.  The environment opens and     *)
(* ends connections, stops reading, calls hub methods (which may block on  *)
(* a gate before they do what they are asked to) and sends from outside.   *)
(* What it does takes effect at once, except that several actions can be   *)
(* in progress at the same time (par): they take effect in any order.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NConns, NInv, NMsg,   \* bounds: connections, invocations, messages from outside
          Ids, Groups,          \* connection ids, groups
          Kinds,                \* how connections are opened
          Cbs,                  \* what the callbacks of a connection do
          Ends,                 \* how connections end
          Outs,                 \* kinds of sends from outside: all client group
          Ops,                  \* operations of hub methods
          Gates,                \* SUBSET BOOLEAN: do hub methods block before they act
          Features,             \* SUBSET {"stall", "shutdown", "gc", "par", "churn", "mob"}
          PerConn               \* a hub for each connection

Conns == 1..NConns
Invs == 1..NInv

VARIABLES
  st,      \* [Conns -> state]: none, half, hstall (handshake response not read), up, gone, refused (never up)
  id,      \* [Conns -> connection id]
  cb,      \* [Conns -> what its callbacks do]
  stalled, \* connections whose peer does not read
  wob,     \* connections whose peer stops reading while other actions are in progress
  fresh,   \* [Conns -> messages for such a connection: the peer may or may not have read them]
  grp,     \* SUBSET (Groups \X Conns)
  pend,    \* [Conns -> set of messages not read yet]
  rec,     \* [Conns -> set of messages received]
  inv,     \* [Invs -> the invocation, with its phase none/gated/done]
  items,   \* [Conns -> value of the connection item]
  nconn, ninv, nmsg,
  todo,    \* actions in progress
  down,    \* the server was shut down
  mark     \* what happened without effect on anything here

vars == <<st, id, cb, stalled, wob, fresh, grp, pend, rec, fresh, inv, items, nconn, ninv, nmsg, todo, down, mark>>

NoInv == [k |-> 0, op |-> "", x |-> "", ph |-> "none"]

Init ==
  /\ st = [k \in Conns |-> "none"]
  /\ id = [k \in Conns |-> ""]
  /\ cb = [k \in Conns |-> "none"]
  /\ stalled = {} /\ grp = {} /\ wob = {}
  /\ fresh = [k \in Conns |-> {}]
  /\ pend = [k \in Conns |-> {}]
  /\ rec = [k \in Conns |-> {}]
  /\ inv = [i \in Invs |-> NoInv]
  /\ items = [k \in Conns |-> 0]
  /\ nconn = 0 /\ ninv = 0 /\ nmsg = 0
  /\ todo = {}
  /\ down = FALSE
  /\ mark = <<>>

Up == {k \in Conns : st[k] = "up"}
Owner(x) == {k \in Up : id[k] = x}
InGroup(g) == {k \in Conns : <<g, k>> \in grp}

(* e: set of <<connection, message>> *)
Emit(e) ==
  LET of(k) == {p[2] : p \in {q \in e : q[1] = k}} IN
  /\ rec' = [k \in Conns |-> IF k \in stalled \cup wob THEN rec[k] ELSE rec[k] \cup of(k)]
  /\ pend' = [k \in Conns |-> IF k \in stalled \ wob THEN pend[k] \cup of(k) ELSE pend[k]]
  /\ fresh' = [k \in Conns |-> IF k \in wob THEN fresh[k] \cup of(k) ELSE fresh[k]]

To(ks, m) == {<<k, m>> : k \in ks}
Target(to, x) == CASE to = "all" -> Up [] to = "client" -> Owner(x) [] to = "group" -> InGroup(x)

-----------------------------------------------------------------------------
(* Effects.  Each leaves nconn, ninv, nmsg, mark to its caller *)

(* k completes the handshake: it is connected, and its callback runs *)
BeUp(k, td) ==
  /\ st' = [st EXCEPT ![k] = "up"]
  /\ todo' = td \cup (IF cb[k] = "talk" THEN {[a |-> "oncon", k |-> k]} ELSE {})

(* the connections ks end *)
End(ks, td) ==
  LET ups == {k \in ks : st[k] = "up"} IN
  /\ st' = [k \in Conns |-> IF k \in ups THEN "gone" ELSE IF k \in ks /\ st[k] \in {"half", "hstall"} THEN "refused" ELSE st[k]]
  /\ grp' = {p \in grp : p[2] \notin ks}
  /\ todo' = td \cup {[a |-> "ondis", k |-> k] : k \in {k \in ups : cb[k] = "talk"}}

Connect(a, td) ==
  /\ id' = [id EXCEPT ![a.k] = a.id]
  /\ cb' = [cb EXCEPT ![a.k] = a.cb]
  /\ stalled' = IF a.how = "stall" THEN stalled \cup {a.k} ELSE stalled
  /\ \/ /\ ~down
        /\ st' = [st EXCEPT ![a.k] = CASE a.how = "ok" -> "up" [] a.how = "half" -> "half" [] a.how = "stall" -> "hstall"
                                     [] OTHER -> "refused"]
        /\ todo' = td \cup (IF a.how = "ok" /\ a.cb = "talk" THEN {[a |-> "oncon", k |-> a.k]} ELSE {})
     \/ /\ down
        /\ st' = [st EXCEPT ![a.k] = "refused"] /\ todo' = td
     \/ \* shutdown was faster than the handshake, but not fast enough
        /\ down /\ a.how = "ok"
        /\ st' = [st EXCEPT ![a.k] = "gone"]
        /\ todo' = td \cup (IF a.cb = "talk" THEN {[a |-> "oncon", k |-> a.k], [a |-> "ondis", k |-> a.k]} ELSE {})
  /\ UNCHANGED <<grp, pend, rec, fresh, inv, items, down>>

Finish(k, td) ==
  /\ IF st[k] # "half" THEN UNCHANGED st /\ todo' = td ELSE BeUp(k, td)
  /\ UNCHANGED <<id, cb, stalled, grp, pend, rec, fresh, inv, items, down>>

Stall(k, td) ==
  /\ stalled' = IF st[k] = "up" THEN stalled \cup {k} ELSE stalled
  /\ todo' = td
  /\ UNCHANGED <<st, id, cb, grp, pend, rec, fresh, inv, items, down>>

Unstall(k, td) ==
  /\ stalled' = stalled \ {k}
  /\ rec' = [rec EXCEPT ![k] = @ \cup pend[k]]
  /\ pend' = [pend EXCEPT ![k] = {}]
  /\ IF st[k] = "hstall" THEN BeUp(k, td) ELSE UNCHANGED st /\ todo' = td
  /\ UNCHANGED <<id, cb, grp, fresh, inv, items, down>>

EndConn(k, td) == End({k}, td) /\ UNCHANGED <<id, cb, stalled, pend, rec, fresh, inv, items, down>>

(* nobody finishes the handshake for a long time *)
HsTimeout(td) ==
  /\ End({k \in Conns : st[k] \in {"half", "hstall"}}, td)
  /\ UNCHANGED <<id, cb, stalled, pend, rec, fresh, inv, items, down>>

(* everybody ends, one after the other *)
Shutdown(td) ==
  /\ down' = TRUE
  /\ todo' = td \cup {[a |-> "end", k |-> k, how |-> "shutdown"] : k \in {k \in Conns : st[k] \in {"half", "hstall", "up"}}}
  /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, inv, items>>

Send(a, td) ==
  /\ Emit(To(Target(a.to, a.x), "m" \o ToString(a.n)))
  /\ todo' = td
  /\ UNCHANGED <<st, id, cb, stalled, grp, inv, items, down>>

(* Invocation i of connection k does what it was asked to, then it is answered.  When the connection has ended
   meanwhile, its id may belong to another connection; what is addressed to the id may or may not reach that one. *)
Act(i, k, op, x, td) ==
  LET msg == "n" \o ToString(i)
      r == CASE op = "get" -> ToString(items[k]) [] op = "panic" -> "err" [] OTHER -> "done"
      td2 == td \cup {[a |-> "answer", k |-> k, s |-> "i" \o ToString(i) \o ":" \o r]}
  IN
  \E me \in IF st[k] = "up" THEN {{k}} ELSE {{}, Owner(id[k])} :
    /\ inv' = [inv EXCEPT ![i] = [k |-> k, op |-> op, x |-> x, ph |-> "done"]]
    /\ Emit(CASE op = "all" -> To(Up, msg)
              [] op = "caller" -> To(me, msg)
              [] op = "client" -> To(Owner(x), msg)
              [] op = "group" -> To(InGroup(x), msg)
              [] OTHER -> {})
    /\ grp' = CASE op = "join" -> grp \cup {<<x, m>> : m \in me}
                [] op = "leave" -> grp \ {<<x, m>> : m \in me}
                [] op = "add" -> grp \cup {<<CHOOSE g \in Groups : TRUE, m>> : m \in Owner(x)}
                [] op = "del" -> grp \ {<<CHOOSE g \in Groups : TRUE, m>> : m \in Owner(x)}
                [] op = "abort" -> {p \in grp : p[2] # k}
                [] OTHER -> grp
    /\ items' = IF op = "set" THEN [items EXCEPT ![k] = i] ELSE items
    /\ IF op = "abort" /\ st[k] = "up"
       THEN /\ st' = [st EXCEPT ![k] = "gone"]
            /\ todo' = td2 \cup (IF cb[k] = "talk" THEN {[a |-> "ondis", k |-> k]} ELSE {})
       ELSE UNCHANGED st /\ todo' = td2
  /\ UNCHANGED <<id, cb, stalled, down>>

(* what is written to a connection which ends may get lost *)
Answer(k, s, td) ==
  /\ IF st[k] = "up" THEN Emit({<<k, s>>}) ELSE pend' = [pend EXCEPT ![k] = @ \cup {s}] /\ UNCHANGED <<rec, fresh>>
  /\ todo' = td
  /\ UNCHANGED <<st, id, cb, stalled, grp, inv, items, down>>

Invoke(a, td) ==
  IF st[a.k] # "up" THEN todo' = td /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, inv, items, down>>
  ELSE IF a.gated
  THEN /\ inv' = [inv EXCEPT ![a.i] = [k |-> a.k, op |-> a.op, x |-> a.x, ph |-> "gated"]]
       /\ todo' = td
       /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, items, down>>
  ELSE Act(a.i, a.k, a.op, a.x, td)

Release(i, td) ==
  IF inv[i].ph # "gated" THEN todo' = td /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, inv, items, down>>
  ELSE Act(i, inv[i].k, inv[i].op, inv[i].x, td)

(* The callbacks: OnConnected joins the first group and greets everybody, OnDisconnected tries to join again and says
   good bye.  A connection which just ends may or may not hear itself. *)
Tell(k, m) ==
  /\ LET of(j) == IF st[j] = "up" THEN {m} ELSE {} IN
     /\ rec' = [j \in Conns |-> IF j \in stalled \cup wob THEN rec[j] ELSE rec[j] \cup of(j)]
     /\ pend' = [j \in Conns |-> IF j \in stalled \ wob \/ (j = k /\ st[k] = "gone")
                                 THEN pend[j] \cup of(j) \cup (IF j = k /\ st[k] = "gone" THEN {m} ELSE {}) ELSE pend[j]]
     /\ fresh' = [j \in Conns |-> IF j \in wob THEN fresh[j] \cup of(j) ELSE fresh[j]]

OnCon(k, td) ==
  /\ todo' = td
  /\ Tell(k, "h" \o ToString(k))
  /\ grp' = IF st[k] = "up" THEN grp \cup {<<CHOOSE g \in Groups : TRUE, k>>} ELSE grp
  /\ UNCHANGED <<st, id, cb, stalled, inv, items, down>>

OnDis(k, td) ==
  /\ todo' = td
  /\ Tell(k, "b" \o ToString(k))
  /\ UNCHANGED <<st, id, cb, stalled, grp, inv, items, down>>

Nothing(td) == todo' = td /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, inv, items, down>>

Do(a, td) ==
  CASE a.a = "connect"  -> Connect(a, td)
    [] a.a = "finish"   -> Finish(a.k, td)
    [] a.a = "stall"    -> Stall(a.k, td)
    [] a.a = "unstall"  -> Unstall(a.k, td)
    [] a.a = "end"      -> EndConn(a.k, td)
    [] a.a = "hstimeout"-> HsTimeout(td)
    [] a.a = "shutdown" -> Shutdown(td)
    [] a.a = "send"     -> Send(a, td)
    [] a.a = "inv"      -> Invoke(a, td)
    [] a.a = "rel"      -> Release(a.i, td)
    [] a.a = "answer"   -> Answer(a.k, a.s, td)
    [] a.a = "oncon"    -> OnCon(a.k, td)
    [] a.a = "ondis"    -> OnDis(a.k, td)
    [] a.a \in {"gc", "churn", "mob"} -> Nothing(td)

Max(a, b) == IF a > b THEN a ELSE b
Count(acts) ==
  /\ nconn' = IF \E j \in DOMAIN acts : acts[j].a = "connect" THEN nconn + 1 ELSE nconn
  /\ ninv' = IF \E j \in DOMAIN acts : acts[j].a = "inv" THEN ninv + Len(acts) ELSE ninv
  /\ nmsg' = IF \E j \in DOMAIN acts : acts[j].a = "send" THEN nmsg + Len(acts) ELSE nmsg
  /\ mark' = IF Len(acts) = 1 /\ acts[1].a \in {"gc", "churn", "mob"} THEN Append(mark, acts[1].a) ELSE mark

Env(a) ==
  IF a.a = "par"
  THEN /\ Count(a.acts)
       /\ todo' = {a.acts[j] : j \in DOMAIN a.acts}
       /\ wob' = {a.acts[j].k : j \in {j \in DOMAIN a.acts : a.acts[j].a = "stall"}}
       /\ UNCHANGED <<st, id, cb, stalled, grp, pend, rec, fresh, inv, items, down>>
  ELSE Count(<<a>>) /\ Do(a, {}) /\ UNCHANGED wob

(* what the peer has read before it stopped *)
Settle ==
  /\ \E f \in [wob -> SUBSET UNION {fresh[k] : k \in wob}] :
       /\ \A k \in wob : f[k] \subseteq fresh[k]
       /\ rec' = [k \in Conns |-> IF k \in wob THEN rec[k] \cup f[k] ELSE rec[k]]
       /\ pend' = [k \in Conns |-> IF k \in wob THEN pend[k] \cup (fresh[k] \ f[k]) ELSE pend[k]]
  /\ wob' = {}
  /\ fresh' = [k \in Conns |-> {}]
  /\ UNCHANGED <<st, id, cb, stalled, grp, inv, items, todo, down>>

Busy == todo # {} \/ wob # {}
Internal ==
  /\ IF todo # {} THEN (\E a \in todo : Do(a, todo \ {a})) /\ UNCHANGED wob ELSE wob # {} /\ Settle
  /\ UNCHANGED <<nconn, ninv, nmsg, mark>>

-----------------------------------------------------------------------------
(* The environment actions worth exploring.  o: number of other actions in the same par which may use numbers *)
Live == {k \in Conns : st[k] \in {"half", "hstall", "up"}}

ConnectActs(o) ==
  IF nconn = NConns \/ down THEN {}
  ELSE {[a |-> "connect", k |-> nconn + 1, id |-> x, how |-> h, cb |-> c] :
          x \in Ids \ {id[k] : k \in Live}, h \in Kinds, c \in Cbs}
EndActs(o) == {[a |-> "end", k |-> k, how |-> e] : k \in Up, e \in Ends}
          \cup {[a |-> "end", k |-> k, how |-> "drop"] : k \in Live \ Up}
HalfActs(o) == {[a |-> "finish", k |-> k] : k \in {k \in Conns : st[k] = "half"}}
StallActs(o) == IF "stall" \notin Features THEN {}
             ELSE {[a |-> "stall", k |-> k] : k \in Up \ stalled} \cup {[a |-> "unstall", k |-> k] : k \in stalled \cap Live}
SendActs(o) ==
  IF nmsg + o >= NMsg \/ nconn = 0 THEN {}
  ELSE {[a |-> "send", to |-> to, x |-> x, n |-> nmsg + 1 + o] : to \in Outs \cap {"all"}, x \in {""}}
    \cup {[a |-> "send", to |-> to, x |-> x, n |-> nmsg + 1 + o] : to \in Outs \cap {"client"}, x \in Ids}
    \cup {[a |-> "send", to |-> to, x |-> x, n |-> nmsg + 1 + o] : to \in Outs \cap {"group"}, x \in Groups}
OpArgs(op) == CASE op \in {"client", "add", "del"} -> Ids [] op \in {"group", "join", "leave"} -> Groups [] OTHER -> {""}
InvActs(o) ==
  IF ninv + o >= NInv THEN {}
  ELSE UNION {{[a |-> "inv", k |-> k, i |-> ninv + 1 + o, op |-> op, x |-> x, gated |-> g] :
                  k \in Up, x \in OpArgs(op), g \in Gates} : op \in Ops}
RelActs(o) == {[a |-> "rel", i |-> i] : i \in {i \in Invs : inv[i].ph = "gated"}}

Acts(o) == ConnectActs(o) \cup EndActs(o) \cup HalfActs(o) \cup StallActs(o) \cup SendActs(o) \cup InvActs(o) \cup RelActs(o)
DownActs == IF "shutdown" \in Features /\ ~down /\ nconn > 0 THEN {[a |-> "shutdown"]} ELSE {}
OtherActs ==
  (IF Live \ Up # {} THEN {[a |-> "hstimeout"]} ELSE {})
  \cup (IF "gc" \in Features /\ "gc" \notin {mark[j] : j \in DOMAIN mark} /\ \E k \in Conns : st[k] \in {"gone", "refused"}
        THEN {[a |-> "gc"]} ELSE {})
  \cup (IF "churn" \in Features /\ "churn" \notin {mark[j] : j \in DOMAIN mark} /\ ~down THEN {[a |-> "churn"]} ELSE {})
  \cup (IF "mob" \in Features /\ "mob" \notin {mark[j] : j \in DOMAIN mark} /\ ~down THEN {[a |-> "mob"]} ELSE {})

(* two actions that can be in progress together *)
Compatible(a, b) ==
  /\ ~(a.a = "connect" /\ b.a = "connect")
  /\ ~(a.a = b.a /\ a.a \in {"end", "finish", "stall", "unstall", "rel"} /\ a = b)
  /\ ~(a.a = "end" /\ b.a = "end" /\ a.k = b.k)
  /\ ~(a.a \in {"stall", "unstall"} /\ b.a \in {"stall", "unstall"} /\ a.k = b.k)
  /\ ~("timeout" \in {IF x.a = "end" THEN x.how ELSE "" : x \in {a, b}})

ParActs == IF "par" \notin Features THEN {}
  ELSE {[a |-> "par", acts |-> <<p[1], p[2]>>] : p \in {q \in Acts(0) \X (Acts(1) \cup DownActs) : Compatible(q[1], q[2])}}

EnvActs == Acts(0) \cup DownActs \cup OtherActs \cup ParActs

(* For random walks: some candidates of each kind, drawn at random *)
Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
DrawKind(o) ==
  LET c == ConnectActs(o)
      f == {[c |-> 1, s |-> {a \in c : a.how = "ok"}], [c |-> 2, s |-> {a \in c : a.how # "ok"}], [c |-> 3, s |-> EndActs(o)],
            [c |-> 4, s |-> HalfActs(o) \cup StallActs(o)], [c |-> 5, s |-> SendActs(o)], [c |-> 6, s |-> InvActs(o)],
            [c |-> 7, s |-> {a \in InvActs(o) : a.op \in {"join", "add"}}], [c |-> 8, s |-> RelActs(o)]}
  IN UNION {Draw(x.s) : x \in f}
DrawPar(n) ==
  LET x == Draw(DrawKind(0))
      y == Draw(DrawKind(1))
      z == IF n = 2 THEN {} ELSE Draw(DrawKind(2) \cup DownActs)
  IN IF x = {} \/ y = {} \/ (n = 3 /\ z = {}) THEN {}
     ELSE LET acts == <<CHOOSE a \in x : TRUE, CHOOSE a \in y : TRUE>> \o IF n = 2 THEN <<>> ELSE <<CHOOSE a \in z : TRUE>>
          IN IF \E i, j \in DOMAIN acts : i < j /\ ~Compatible(acts[i], acts[j]) THEN {}
             ELSE {[a |-> "par", acts |-> acts]}
WalkActs ==
  LET s == IF nconn = 0 \/ (Up = {} /\ Live = {} /\ nconn < NConns) THEN DrawKind(0)
           ELSE DrawKind(0) \cup Draw(OtherActs) \cup (IF "par" \in Features THEN UNION {DrawPar(2 + (j % 2)) : j \in 1..6} ELSE {})
                \cup (IF RandomElement(1..8) = 1 THEN DownActs ELSE {})
  IN IF s = {} THEN DownActs \cup OtherActs ELSE s

-----------------------------------------------------------------------------
(* Properties *)
TypeOK ==
  /\ \A k \in Conns : st[k] \in {"none", "half", "hstall", "up", "gone", "refused"}
  /\ grp \subseteq Groups \X Conns
  /\ stalled \subseteq Conns

(* C06: only connected clients are in groups *)
GroupsAreLive == \A p \in grp : st[p[2]] = "up"

(* ids are exclusive *)
IdsExclusive == \A j, k \in Live : id[j] = id[k] => j = k

(* C05: every message received was sent to this very connection while it was connected; nothing is received twice *)
OnlyAddressed == \A k \in Conns : st[k] \in {"none", "half", "hstall", "refused"} => rec[k] = {} /\ pend[k] = {}
NotTwice == \A k \in Conns : rec[k] \cap pend[k] = {}

(* C07: a connection that reads owes nothing to anybody *)
NobodyWaits == \A k \in Up \ stalled : pend[k] = {}

(* C08: the server is down: nobody is connected *)
DownMeansAllGone == down /\ todo = {} => Live = {}

(* C05, C06 as an action property: gone connections get nothing *)
GoneStaysGone == [][\A k \in Conns : st[k] \in {"gone", "refused"} => st'[k] = st[k] /\ rec'[k] \subseteq rec[k] \cup pend[k] \cup fresh[k]]_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : Env(a))]_vars
=============================================================================
