------------------------------- MODULE Redis --------------------------------
(***************************************************************************)
(* Several servers which share a Redis lifetime manager.  What they do is  *)
(* what one server with all the connections would do: it does not matter   *)
(* which server a connection is connected to, and where an operation is    *)
(* executed.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NConns, NServers, NGroups,
          MaxEvents,
          Feats    \* SUBSET {"outside", "two", "end", "stall", "cut", "stop", "ends", "nobody"}

VARIABLES on,      \* the server of each connection, 0: it is not connected
          mem,     \* the members of each group
          up,      \* the servers which are running
          stalled, \* the connections which do not read
          got,     \* what each connection has received because of the last action
          n, mark

vars == <<on, mem, up, stalled, got, n, mark>>

Conns == 1..NConns
Servers == 1..NServers
Groups == 1..NGroups
On == {k \in Conns : on[k] # 0}

Init == /\ on = [k \in Conns |-> 0] /\ mem = [g \in Groups |-> {}] /\ up = Servers /\ stalled = {}
        /\ got = [k \in Conns |-> {}] /\ n = 0 /\ mark = ""

-----------------------------------------------------------------------------
(* An operation: by a hub method of connection by, or (0) by the code around server sv *)
Sends == {"all", "client", "group", "caller"}
Addressed(o, c, m) ==
  CASE o.op = "all" -> c
    [] o.op = "client" -> {o.x} \cap c
    [] o.op = "caller" -> {o.by} \cap c
    [] o.op = "group" -> m[o.g] \cap c
    [] OTHER -> {}
Member(o, c, m) ==
  CASE o.op = "join" -> [m EXCEPT ![o.g] = @ \cup ({o.x} \cap c)]
    [] o.op = "leave" -> [m EXCEPT ![o.g] = @ \ {o.x}]
    [] OTHER -> m
Name(s) == "n" \o ToString(n + 1) \o s
Deliver(o, c, m, s, r) == [k \in Conns |-> IF k \in Addressed(o, c, m) /\ k \notin stalled THEN r[k] \cup {Name(s)} ELSE r[k]]
None == [k \in Conns |-> {}]

Con(a) ==
  /\ on' = [on EXCEPT ![a.k] = a.s] /\ stalled' = stalled \ {a.k} /\ got' = None /\ UNCHANGED <<mem, up>>
Forget(S) ==
  /\ on' = [k \in Conns |-> IF k \in S THEN 0 ELSE on[k]]
  /\ mem' = [g \in Groups |-> mem[g] \ S]
  /\ stalled' = stalled \ S
Dis(a) == Forget({a.k}) /\ got' = None /\ UNCHANGED up
Do(a) == /\ mem' = Member(a.o, On, mem) /\ got' = Deliver(a.o, On, mem, "a", None) /\ UNCHANGED <<on, up, stalled>>
Two(a) ==
  /\ UNCHANGED <<on, up, stalled>>
  /\ LET m1 == Member(a.o, On, mem)
         m2 == Member(a.q, On, mem) IN
     \/ mem' = Member(a.q, On, m1) /\ got' = Deliver(a.q, On, m1, "b", Deliver(a.o, On, mem, "a", None))
     \/ mem' = Member(a.o, On, m2) /\ got' = Deliver(a.o, On, m2, "a", Deliver(a.q, On, mem, "b", None))
(* A connection ends while an operation is in progress.  Nobody can see what it has received then. *)
End(a) ==
  LET c == On \ {a.k} IN
  /\ on' = [on EXCEPT ![a.k] = 0] /\ stalled' = stalled \ {a.k} /\ UNCHANGED up
  /\ mem' = LET m == Member(a.o, c, mem) IN [g \in Groups |-> m[g] \ {a.k}]
  /\ got' = Deliver(a.o, c, mem, "a", None)
Stall(a) == stalled' = stalled \cup {a.k} /\ got' = None /\ UNCHANGED <<on, mem, up>>
(* Redis ends all its connections: they are made again *)
Cut == got' = None /\ UNCHANGED <<on, mem, up, stalled>>
Stop(a) == Forget({k \in Conns : on[k] = a.s}) /\ up' = up \ {a.s} /\ got' = None

Busy == FALSE
Internal == FALSE /\ UNCHANGED vars
Env(a) ==
  /\ n' = n + 1
  /\ mark' = a.a \o (IF a.a \in {"do", "two"} THEN a.o.op \o ToString(a.o.x) ELSE IF a.a = "end" THEN a.o.op \o ToString(a.o.x) ELSE "")
  /\ CASE a.a = "con" -> Con(a)
       [] a.a = "dis" -> Dis(a)
       [] a.a = "do" -> Do(a)
       [] a.a = "two" -> Two(a)
       [] a.a = "end" -> End(a)
       [] a.a = "stall" -> Stall(a)
       [] a.a = "cut" -> Cut
       [] a.a = "stop" -> Stop(a)

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
Op(op, by, sv, g, x) == [op |-> op, by |-> by, sv |-> sv, g |-> g, x |-> x]
(* a connection which does not read is not a good caller, its answers wait *)
Callers == On \ stalled
Somebody == Conns \cup (IF "nobody" \in Feats THEN {0} ELSE {})
Ops ==
  {Op(op, b, 1, 1, 0) : op \in {"all", "caller"}, b \in Callers}
  \cup {Op("client", b, 1, 1, x) : b \in Callers, x \in Somebody}
  \cup {Op("group", b, 1, g, 0) : b \in Callers, g \in Groups}
  \cup {Op(op, b, 1, g, x) : op \in {"join", "leave"}, b \in Callers, g \in Groups, x \in Somebody}
  \cup (IF "outside" \in Feats
        THEN {Op("all", 0, s, 1, 0) : s \in up} \cup {Op("client", 0, s, 1, x) : s \in up, x \in Somebody} \cup {Op("group", 0, s, g, 0) : s \in up, g \in Groups}
        ELSE {})
EnvActs ==
  IF n >= MaxEvents THEN {} ELSE
  {[a |-> "con", k |-> k, s |-> s] : k \in {k \in Conns : on[k] = 0}, s \in up}
  \cup {[a |-> "dis", k |-> k, how |-> h] : k \in On, h \in (IF "ends" \in Feats THEN {"drop", "bye"} ELSE {"drop"})}
  \cup {[a |-> "do", o |-> o] : o \in Ops}
  \cup (IF "two" \in Feats THEN {[a |-> "two", o |-> o, q |-> q] : o \in Ops, q \in Ops} ELSE {})
  \cup (IF "end" \in Feats
        THEN UNION {{[a |-> "end", k |-> k, late |-> l, o |-> o] : l \in BOOLEAN, o \in {o \in Ops : o.by # k}} : k \in On} ELSE {})
  \cup (IF "stall" \in Feats THEN {[a |-> "stall", k |-> k] : k \in Callers} ELSE {})
  \cup (IF "cut" \in Feats THEN {[a |-> "cut"]} ELSE {})
  \cup (IF "stop" \in Feats /\ Cardinality(up) > 1 THEN {[a |-> "stop", s |-> s] : s \in up} ELSE {})

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
DrawOps(S) == Draw({o \in Ops : o.op \in S})
WalkActs ==
  LET c == RandomElement(1..14)
      off == {k \in Conns : on[k] = 0}
      con == {[a |-> "con", k |-> k, s |-> s] : k \in Draw(off), s \in Draw(up)}
      do(S) == {[a |-> "do", o |-> o] : o \in DrawOps(S)}
      some == {[a |-> "do", o |-> o] : o \in Draw(Ops)}
      w == CASE c <= 2 -> con \cup do({"join"})
             [] c <= 4 -> do({"join"})
             [] c = 5 -> do({"leave"})
             [] c <= 7 -> do({"group"})
             [] c = 8 -> do({"all", "client"})
             [] c <= 10 -> IF "two" \in Feats THEN {[a |-> "two", o |-> o, q |-> q] : o \in Draw(Ops), q \in DrawOps({"join", "leave", "group", "all"})} ELSE some
             [] c = 11 -> Draw({[a |-> "dis", k |-> k, how |-> h] : k \in On, h \in {"drop", "bye"}})
             [] c = 12 -> IF "end" \in Feats THEN UNION {{[a |-> "end", k |-> k, late |-> RandomElement(BOOLEAN), o |-> o] : o \in Draw({o \in Ops : o.by # k})} : k \in Draw(On)} ELSE some
             [] c = 13 -> IF "stall" \in Feats /\ RandomElement(1..3) = 1 THEN {[a |-> "stall", k |-> k] : k \in Draw(Callers)} ELSE IF "cut" \in Feats THEN {[a |-> "cut"]} ELSE some
             [] OTHER -> IF "stop" \in Feats /\ Cardinality(up) > 1 /\ RandomElement(1..5) = 1 THEN {[a |-> "stop", s |-> s] : s \in Draw(up)} ELSE some IN
  IF w # {} THEN w ELSE IF con # {} THEN con ELSE IF some # {} THEN some ELSE {[a |-> "dis", k |-> k, how |-> "drop"] : k \in Draw(On)}

-----------------------------------------------------------------------------
(* C19 *)
TypeOK == /\ \A k \in Conns : on[k] \in 0..NServers /\ on[k] \in up \cup {0}
          /\ stalled \subseteq On
NothingLeft == \A g \in Groups : mem[g] \subseteq On
OnlyConnected == \A k \in Conns : got[k] # {} => k \in On
(* an action concerns the membership of one connection for each of its operations *)
Touched(g) == (mem[g] \cup mem'[g]) \ (mem[g] \cap mem'[g])
OthersStay == [][\A g \in Groups : Cardinality(Touched(g) \cap {k \in Conns : on'[k] = on[k]}) <= 2]_vars
(* who connects is in no group, whoever had the id before *)
Fresh == [][\A k \in Conns : on[k] = 0 /\ on'[k] # 0 => \A g \in Groups : k \notin mem'[g]]_vars
Spec == Init /\ [][\E a \in EnvActs : Env(a)]_vars
=============================================================================
