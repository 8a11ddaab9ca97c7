------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The life of a client: connecting, being connected, reconnecting, being  *)
(* closed, and those who watch it (observers, waits).                      *)
(*                                                                         *)
(* Time passes in ticks.  The backoff policy gives 1, 2, 3.. (D0 = 1) or   *)
(* 0, 1, 2.. (D0 = 0) ticks, and gives up after Limit attempts (0: never). *)
(* A handshake may take H ticks, T ticks of silence end a connection.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NConns,    \* dials
          NObs,      \* observers
          NWaits,
          Reconn,    \* the client has a connector
          Limit, D0, H, T,
          Ends,      \* SUBSET {"drop", "err", "junk", "bye", "byeerr", "byere", "byeerrre"}
          HsFails,   \* SUBSET {"error", "malformed", "eof", "early"}
          Targets,   \* states to wait for
          Feats      \* SUBSET {"par", "stop", "cancel", "stall", "lazy", "dialfail", "bundle", "msg", "observe"}

Observers == 1..NObs
Waits == 1..NWaits

VARIABLES
  s,     \* the state of the client, see S0
  base,  \* states which observers have been told before the actions in progress
  todo

vars == <<s, base, todo>>

S0 == [ph |-> "created",   \* created, dialing, hs, up, backoff, closed
       st |-> "created",   \* what everybody sees: created, connecting, up, closed
       stopped |-> FALSE,  \* the client has been told to stop
       stops |-> 0,        \* number of calls of Stop
       conn |-> 0,         \* number of connections (or attempts to get one)
       cs |-> [c \in 1..NConns |-> "none"],  \* none, dialing, nodial, stalled, maybe, hs, failed, up, ended
       stalled |-> FALSE,
       left |-> 0,         \* ticks until something happens
       bi |-> 0,           \* position in the backoff policy
       err |-> "nil",
       ost |-> [o \in Observers |-> "none"], \* none, read, lazy, off, lost, lostread
       oq |-> [o \in Observers |-> <<>>],    \* what observers are told
       wt |-> [w \in Waits |-> "none"],
       wr |-> [w \in Waits |-> "none"]]      \* none, wait, nil, err, ? (nil or err), any (all of them)

Init == s = S0 /\ base = [o \in Observers |-> 0] /\ todo = {}

-----------------------------------------------------------------------------
(* Effects: functions on s *)

(* the state becomes v, and everybody is told *)
SetSt(x, v) ==
  IF x.st = v THEN x
  ELSE [x EXCEPT !.st = v,
                 !.oq = [o \in Observers |-> IF x.ost[o] \in {"read", "lazy"} THEN Append(x.oq[o], v) ELSE x.oq[o]],
                 !.wr = [w \in Waits |->
                   CASE x.wr[w] = "wait" -> IF x.wt[w] = v THEN (IF v = "closed" /\ x.stopped THEN "?" ELSE "nil")
                                            ELSE IF v = "closed" THEN "err" ELSE "wait"
                     [] x.wr[w] = "any" -> IF v = "closed" THEN (IF x.wt[w] = "closed" THEN "?" ELSE "err") ELSE "any"
                     [] OTHER -> x.wr[w]]]

Close(x, e) == SetSt([x EXCEPT !.ph = "closed", !.err = e, !.left = 0], "closed")

Conn(x, v) == [x EXCEPT !.cs[x.conn] = v]

(* the next connection *)
Attempt(x) ==
  IF Reconn THEN [x EXCEPT !.ph = "dialing", !.conn = @ + 1, !.err = "nil", !.left = 0,
                           !.cs = [c \in 1..NConns |-> IF c = x.conn + 1 THEN "dialing" ELSE x.cs[c]]]
  ELSE [x EXCEPT !.ph = "hs", !.conn = 1, !.err = "nil", !.left = H, !.cs[1] = "hs"]

Delay(k) == k - 1 + D0

(* the attempt or the connection is over *)
Over(x, e, again) ==
  LET bi == IF x.ph = "up" THEN 0 ELSE x.bi IN
  IF x.stopped THEN Close(x, "ctx")
  ELSE IF ~Reconn \/ ~again THEN Close(x, e)
  ELSE IF Limit # 0 /\ bi >= Limit THEN Close(x, "backoff")
  ELSE LET y == SetSt([x EXCEPT !.ph = "backoff", !.bi = bi + 1, !.left = Delay(bi + 1), !.err = e], "connecting")
       IN IF y.left = 0 THEN Attempt(y) ELSE y

Start(x) == IF x.ph # "created" THEN x ELSE Attempt(SetSt(x, "connecting"))

DialOk(x, stall) ==
  IF x.ph # "dialing" THEN x
  ELSE IF x.stopped THEN Over(Conn(x, "maybe"), "ctx", TRUE)
  ELSE [Conn(x, IF stall THEN "stalled" ELSE "hs") EXCEPT !.ph = "hs", !.left = H]
DialFail(x) == IF x.ph # "dialing" THEN x ELSE Over(Conn(x, "nodial"), "dial", TRUE)

Accept(x) == IF x.ph # "hs" THEN x ELSE SetSt([Conn(x, "up") EXCEPT !.ph = "up", !.left = T], "up")
HsFail(x) == IF x.ph # "hs" THEN x ELSE Over(IF x.cs[x.conn] = "hs" THEN Conn(x, "failed") ELSE x, "other", TRUE)

ErrOf(how) == CASE how \in {"byeerr", "byeerrre"} -> "bye" [] how \in {"bye", "byere"} -> "?" [] OTHER -> "other"
(* the server ends connection c *)
Lose(x, c, how) == IF x.ph # "up" \/ x.conn # c THEN x ELSE Over(Conn(x, "ended"), ErrOf(how), how \notin {"bye", "byeerr"})

(* the user stops the client *)
Cancel(x) ==
  LET y == [x EXCEPT !.stopped = TRUE] IN
  CASE x.ph = "hs"      -> Over(IF x.cs[x.conn] = "hs" THEN Conn(y, "failed") ELSE y, "ctx", FALSE)
    [] x.ph = "up"      -> Over(Conn(y, "ended"), "ctx", FALSE)
    [] x.ph = "backoff" -> Over(y, "ctx", FALSE)
    [] x.ph = "dialing" -> [y EXCEPT !.wr = [w \in Waits |-> IF @[w] = "wait" THEN "any" ELSE @[w]]]
    [] OTHER            -> y
Stop(x) ==
  LET y == [Cancel(x) EXCEPT !.stops = @ + 1] IN
  IF x.ph = "created" THEN Close(y, "nil") ELSE y

Tick(x) ==
  IF x.left = 0 THEN x
  ELSE IF x.left > 1 THEN [x EXCEPT !.left = @ - 1]
  ELSE CASE x.ph = "hs"      -> HsFail(x)
         [] x.ph = "up"      -> Over(Conn(x, "ended"), "other", TRUE)
         [] x.ph = "backoff" -> Attempt(x)

Msg(x, c) == IF x.ph # "up" \/ x.conn # c THEN x ELSE [x EXCEPT !.left = T]

Observe(x, o, m) == [x EXCEPT !.ost[o] = m]
Unobserve(x, o) == [x EXCEPT !.ost[o] = CASE @ = "read" -> "off" [] @ = "lazy" -> "lost" [] OTHER -> @]
Drain(x, o) == [x EXCEPT !.ost[o] = CASE @ = "lazy" -> "read" [] @ = "lost" -> "lostread" [] OTHER -> @]

Wait(x, w, t) ==
  LET r == IF x.st = t THEN "nil"
           ELSE IF x.st \in {"created", "closed"} THEN "err"
           ELSE IF x.stopped THEN "any" ELSE "wait"
  IN [x EXCEPT !.wt[w] = t, !.wr[w] = r]
CancelWait(x, w) == [x EXCEPT !.wr[w] = IF @ \in {"wait", "any"} THEN "err" ELSE @]

Do(x, a) ==
  CASE a.a = "start"     -> Start(x)
    [] a.a = "dialok"    -> DialOk(x, a.stall)
    [] a.a = "dialfail"  -> DialFail(x)
    [] a.a = "accept"    -> Accept(x)
    [] a.a = "bundle"    -> LET y == Accept(x) IN Lose(y, y.conn, a.how)
    [] a.a = "hsfail"    -> HsFail(x)
    [] a.a = "lose"      -> Lose(x, a.c, a.how)
    [] a.a = "msg"       -> Msg(x, a.c)
    [] a.a = "stop"      -> Stop(x)
    [] a.a = "cancel"    -> Cancel(x)
    [] a.a = "tick"      -> Tick(x)
    [] a.a = "observe"   -> Observe(x, a.o, a.mode)
    [] a.a = "unobserve" -> Unobserve(x, a.o)
    [] a.a = "drain"     -> Drain(x, a.o)
    [] a.a = "wait"      -> Wait(x, a.w, a.t)
    [] a.a = "endwait"   -> CancelWait(x, a.w)

Env(a) ==
  /\ base' = [o \in Observers |-> Len(s.oq[o])]
  /\ IF a.a = "par"
     THEN /\ LET acts == {a.acts[j] : j \in DOMAIN a.acts} IN
             \* a wait may notice the stop of the client before what happens at the same time
             todo' = acts \cup (IF \E b \in acts : b.a \in {"stop", "cancel"}
                                THEN {[a |-> "endwait", w |-> w] : w \in {w \in Waits : s.wr[w] = "wait"} \cup {b.w : b \in {b \in acts : b.a = "wait"}}}
                                ELSE {})
          /\ UNCHANGED s
     ELSE s' = Do(s, a) /\ UNCHANGED todo

Busy == todo # {}
(* the waits which may notice the stop first have this chance only until the stop is over *)
Drop(td, a) == IF a.a \in {"stop", "cancel"} THEN {b \in td : b.a # "endwait"} ELSE td
Internal ==
  /\ Busy
  /\ \E a \in todo :
       IF a.a = "bundle"  \* others may come between the two
       THEN s' = Accept(s) /\ todo' = (todo \ {a}) \cup {[a |-> "lose", c |-> s.conn, how |-> a.how]}
       ELSE s' = Do(s, a) /\ todo' = Drop(todo, a) \ {a}
  /\ UNCHANGED base

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
F(f) == f \in Feats
If(c, S) == IF c THEN S ELSE {}
StartActs == If(s.ph = "created" /\ ~s.stopped, {[a |-> "start"]})
DialActs == If(s.ph = "dialing", {[a |-> "dialok", stall |-> b] : b \in {FALSE} \cup If(F("stall"), {TRUE})} \cup If(F("dialfail"), {[a |-> "dialfail"]}))
HsActs == If(s.ph = "hs", If(s.cs[s.conn] = "hs", {[a |-> "accept"]} \cup {[a |-> "hsfail", how |-> h] : h \in HsFails}
                                                 \cup If(F("bundle"), {[a |-> "bundle", how |-> h] : h \in Ends}))
                          \cup If(s.cs[s.conn] = "stalled", {[a |-> "hsfail", how |-> "eof"]}))
LoseActs == If(s.ph = "up", {[a |-> "lose", c |-> s.conn, how |-> h] : h \in Ends})
MsgActs == If(F("msg") /\ s.ph = "up", {[a |-> "msg", c |-> s.conn]})
StopActs == If(F("stop") /\ (s.stops = 0 \/ (s.ph = "closed" /\ s.stops < 2)), {[a |-> "stop"]})
            \cup If(F("cancel") /\ ~s.stopped, {[a |-> "cancel"]})
TickActs == If(s.left > 0, {[a |-> "tick"]})
NextObs == {o \in Observers : s.ost[o] = "none" /\ \A p \in 1..(o - 1) : s.ost[p] # "none"}
ObserveActs == {[a |-> "observe", o |-> o, mode |-> m] : o \in NextObs, m \in {"read"} \cup If(F("lazy"), {"lazy"})}
UnobserveActs == {[a |-> "unobserve", o |-> o] : o \in {o \in Observers : s.ost[o] \in {"read", "lazy", "off"}}}
DrainActs == {[a |-> "drain", o |-> o] : o \in {o \in Observers : s.ost[o] \in {"lazy", "lost"}}}
NextWait == {w \in Waits : s.wr[w] = "none" /\ \A v \in 1..(w - 1) : s.wr[v] # "none"}
WaitActs == {[a |-> "wait", w |-> w, t |-> t] : w \in NextWait, t \in Targets}
EndWaitActs == {[a |-> "endwait", w |-> w] : w \in {w \in Waits : s.wr[w] = "wait"}}

Moves == StartActs \cup DialActs \cup HsActs \cup LoseActs
Watch == ObserveActs \cup UnobserveActs \cup WaitActs \cup EndWaitActs
EnvActs0 == Moves \cup MsgActs \cup StopActs \cup TickActs \cup Watch \cup DrainActs
ParActs == IF ~F("par") THEN {}
           ELSE {[a |-> "par", acts |-> <<p[1], p[2]>>] :
                   p \in {q \in (Moves \cup Watch) \X (StopActs \cup Watch) :
                            /\ q[1] # q[2]
                            /\ ~(q[1].a = q[2].a)
                            /\ ~({q[1].a, q[2].a} \subseteq {"start", "stop", "cancel"})}}
EnvActs == EnvActs0 \cup ParActs
(* the number of connections is limited *)
Allowed(a) == IF a.a = "par" THEN s.conn < NConns \/ (s.conn <= NConns /\ ~\E j \in DOMAIN a.acts : a.acts[j] \in Moves \ HsActs \/ a.acts[j].a = "hsfail" \/ a.acts[j].a = "bundle")
              ELSE Do(s, a).conn <= NConns

Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
WalkActs ==
  LET w == Draw(Moves) \cup Draw(Moves) \cup TickActs \cup Draw(MsgActs) \cup Draw(Watch) \cup Draw(DrainActs) \cup Draw(ParActs)
           \cup (IF RandomElement(1..8) = 1 THEN StopActs ELSE {})
      v == {a \in w : Allowed(a)}
  IN IF v = {} THEN EnvActs ELSE v

-----------------------------------------------------------------------------
(* C15 *)
TypeOK ==
  /\ s.ph \in {"created", "dialing", "hs", "up", "backoff", "closed"}
  /\ s.conn \in 0..NConns
StateTells ==
  s.st = CASE s.ph \in {"dialing", "hs", "backoff"} -> "connecting" [] OTHER -> s.ph
Steps == {<<"created", "connecting">>, <<"created", "closed">>, <<"connecting", "up">>, <<"connecting", "closed">>, <<"up", "connecting">>, <<"up", "closed">>}
(* observers see a path through the states *)
ObserversSeePaths == \A o \in Observers : \A j \in 1..(Len(s.oq[o]) - 1) : <<s.oq[o][j], s.oq[o][j + 1]>> \in Steps
ObserversAreUpToDate == \A o \in Observers : (s.ost[o] \in {"read", "lazy"} /\ s.oq[o] # <<>>) => s.oq[o][Len(s.oq[o])] = s.st
WaitsEnd == ~Busy => \A w \in Waits : /\ s.st = "closed" => s.wr[w] \notin {"wait", "any"}
                                      /\ s.wr[w] = "wait" => s.st # s.wt[w]
NotStopped == s.stopped => s.ph \in {"created", "dialing", "closed"}
(* C16 *)
OneConnection == /\ \A c \in 1..NConns : c < s.conn => s.cs[c] \in {"nodial", "stalled", "failed", "ended"}
                 /\ s.ph = "up" <=> (s.conn > 0 /\ s.cs[s.conn] = "up")
Waiting == s.ph \in {"hs", "backoff"} => s.left > 0
ClosedForGood == [][s.ph = "closed" => s'.ph = "closed" /\ s'.conn = s.conn]_vars
NeverAgain == [][\A c \in 1..NConns : s.cs[c] \in {"nodial", "failed", "ended"} => s'.cs[c] = s.cs[c]]_vars
(* after a success the policy starts anew *)
Restarted == [][(s.ph = "up" /\ s'.ph = "backoff") => s'.bi = 1]_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : Allowed(a) /\ Env(a))]_vars
=============================================================================
