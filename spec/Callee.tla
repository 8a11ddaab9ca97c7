------------------------------- MODULE Callee -------------------------------
(***************************************************************************)
(* One SignalR connection, seen from the party that executes methods (a    *)
(* server hub or a client receiver).  The environment is the remote peer   *)
(* (sends invocations, cancels, upload items) and the method bodies        *)
(* (finish, panic, produce items).                                         *)
(*                                                                         *)
(* Calls are numbered 1..NCalls in the order in which they are sent.       *)
(* Call k has invocation id "k" unless it is sent without an id; its       *)
(* upload streams are <<k,1>> and <<k,2>>.                                 *)
(*                                                                         *)
(* Internal actions = critical sections of the implementation:             *)
(*   Dispatch    the message loop handles one received message             *)
(*   Run(k)      the goroutine of method call k executes the method body   *)
(*   Reply(k)    ... and sends its completion                              *)
(*   Forward(k)  the stream goroutine of call k handles one item / close   *)
(*   Consume(s)  a method receives one uploaded item / the close           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NCalls,     \* maximal number of calls
          MaxItems,   \* maximal number of items per stream
          Methods,    \* method kinds the environment may call
          Cap,        \* maximal number of concurrent uploads, 0 = unlimited
          BufCap,     \* capacity of the channel of an upload
          Batch,      \* maximal number of messages delivered in one chunk
          MaxCancels, \* bound on the number of cancel messages
          Junks,      \* kinds of malformed or unexpected messages the peer may send (numbers)
          Nbrs,       \* kinds of hostile sessions on another connection to the same server (numbers)
          MaxJunk     \* bound on the number of junk messages and hostile sessions

Calls == 1..NCalls
Streams == Calls \X {1, 2}

VARIABLES
  ncalls,   \* number of calls sent so far
  call,     \* [Calls -> record]: static data of a call
  ph,       \* [Calls -> phase]
  res,      \* [Calls -> result to reply, valid in phase "ret"]
  chq,      \* [Calls -> Seq(Nat)]: items in the channel the method returned
  npush,    \* [Calls -> Nat]: items produced so far
  chclosed, \* [Calls -> BOOLEAN]: method closed its channel
  cancelled,\* set of calls whose cancellation was processed while they were active
  upq,      \* [Streams -> Seq(Nat)]: items in upload channels
  upn,      \* [Streams -> Nat]: items sent by the peer
  up,       \* [Streams -> "none"|"open"|"closed"|"ended"]
  upsent,   \* [Streams -> BOOLEAN]: the peer completed the stream
  inbox,    \* messages received, not yet handled by the loop
  chunk,    \* messages the environment will deliver together with the next one
  alive,    \* the connection is up
  ncancel,
  njunk,    \* noise, junk and hostile neighbours so far
  out,      \* [Calls -> Seq(STRING)]: messages written with the id of the call
  conn,     \* Seq(STRING): messages written without an id (close)
  log       \* [Calls -> [1..3 -> Seq(STRING)]]: 1,2 events on upload streams; 3: method entered

vars == <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk,
          alive, ncancel, njunk, out, conn, log>>

NoCall == [m |-> "none", ty |-> 1, hasid |-> TRUE]

Init ==
  /\ ncalls = 0
  /\ call = [k \in Calls |-> NoCall]
  /\ ph = [k \in Calls |-> "new"]
  /\ res = [k \in Calls |-> ""]
  /\ chq = [k \in Calls |-> <<>>]
  /\ npush = [k \in Calls |-> 0]
  /\ chclosed = [k \in Calls |-> FALSE]
  /\ cancelled = {}
  /\ upq = [s \in Streams |-> <<>>]
  /\ upn = [s \in Streams |-> 0]
  /\ up = [s \in Streams |-> "none"]
  /\ upsent = [s \in Streams |-> FALSE]
  /\ inbox = <<>>
  /\ chunk = <<>>
  /\ alive = TRUE
  /\ ncancel = 0
  /\ njunk = <<>>
  /\ out = [k \in Calls |-> <<>>]
  /\ conn = <<>>
  /\ log = [k \in Calls |-> <<<<>>, <<>>, <<>>>>]

-----------------------------------------------------------------------------
(* Method kinds.
   val void two        return at once (one value, none, two)
   gate gvoid          return when the environment releases them, or panic
   panic               panics at once
   chan gchan          return a channel (at once / when released)
   up up2              consume one or two upload channels, return the number of items
   gup                 waits until it is released, then consumes its upload
   upleave uppanic     has an upload channel, but returns or panics at once without reading it
   noenc               returns a value which can not be encoded
   unknown badtype badcount upfew upmany upsame lifecycle   cannot be called: no such method, arguments which do
                       not fit, too few or too many streams, one stream id twice, a method of the hub interface *)
Uploads(m) == CASE m \in {"up", "upleave", "uppanic", "gup"} -> {1} [] m = "up2" -> {1, 2} [] OTHER -> {}
Unfit == {"unknown", "badtype", "badcount", "upfew", "upmany", "upsame", "lifecycle"}
NumOut(m) == IF m \in {"void", "gvoid"} THEN 0 ELSE IF m = "two" THEN 2 ELSE 1
IsChan(m) == m \in {"chan", "gchan"}

Active(k) == ph[k] \in {"exec", "gated", "ret", "await", "streaming"}
OpenUploads == {s \in Streams : up[s] = "open"}

-----------------------------------------------------------------------------
(* Environment actions.  They are total; where they make no sense in the
   current state they do nothing, exactly like the driver. *)

Deliver(msg, more) ==
  IF ~alive THEN UNCHANGED <<inbox, chunk>>
  ELSE IF more THEN chunk' = Append(chunk, msg) /\ UNCHANGED inbox
  ELSE inbox' = inbox \o Append(chunk, msg) /\ chunk' = <<>>

EnvSend(a) ==
  /\ ncalls < NCalls
  /\ ncalls' = ncalls + 1
  /\ LET k == ncalls + 1 IN
       /\ call' = [call EXCEPT ![k] = [m |-> a.m, ty |-> a.ty, hasid |-> a.hasid]]
       /\ Deliver([t |-> "inv", k |-> k, s |-> 0], a.more)
  /\ UNCHANGED <<ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, alive, ncancel, njunk, out, conn, log>>

EnvCancel(a) ==
  /\ ncancel' = ncancel + 1
  /\ Deliver([t |-> "cancel", k |-> a.k, s |-> 0], a.more)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, alive, njunk, out, conn, log>>

EnvUItem(a) ==
  /\ upn' = [upn EXCEPT ![<<a.k, a.s>>] = @ + 1]
  /\ Deliver([t |-> "uitem", k |-> a.k, s |-> a.s, n |-> upn[<<a.k, a.s>>] + 1], a.more)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, up, upsent, alive, ncancel, njunk, out, conn, log>>

(* completion of an upload: plain, with an error, or with a result (which is a last item) *)
EnvUDone(a) ==
  /\ upsent' = [upsent EXCEPT ![<<a.k, a.s>>] = TRUE]
  /\ Deliver([t |-> "udone", k |-> a.k, s |-> a.s, how |-> a.how], a.more)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, alive, ncancel, njunk, out, conn, log>>

(* a ping, any number of cancellations of unknown invocations, any number of invocations of methods which do not
   return: nothing happens to the calls observed *)
EnvNoise(a) ==
  /\ njunk' = Append(njunk, a.a)
  /\ Deliver([t |-> "noise"], a.more)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, alive, ncancel, out, conn, log>>

(* a malformed or unexpected message *)
EnvJunk(a) ==
  /\ njunk' = Append(njunk, a.a \o ToString(a.kind))
  /\ Deliver([t |-> "junk"], a.more)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, alive, ncancel, out, conn, log>>

(* somebody else connects and sends whatever he wants: nothing happens here *)
EnvNeighbour(a) ==
  /\ njunk' = Append(njunk, a.a \o ToString(a.kind))
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, out, conn, log>>

(* a method blocked on its gate returns or panics *)
EnvRelease(a) ==
  /\ IF ph[a.k] = "gated"
     THEN LET m == call[a.k].m IN
            IF a.how = "panic" THEN ph' = [ph EXCEPT ![a.k] = "ret"] /\ res' = [res EXCEPT ![a.k] = "errp"]
            ELSE IF m = "gvoid" THEN ph' = [ph EXCEPT ![a.k] = "ret"] /\ res' = [res EXCEPT ![a.k] = "void"]
            ELSE IF m = "gup" THEN ph' = [ph EXCEPT ![a.k] = "uploading"] /\ UNCHANGED res
            ELSE IF m = "gchan" THEN ph' = [ph EXCEPT ![a.k] = IF call[a.k].ty = 1 THEN "await" ELSE "streaming"] /\ UNCHANGED res
            ELSE ph' = [ph EXCEPT ![a.k] = "ret"] /\ res' = [res EXCEPT ![a.k] = "val"]
     ELSE UNCHANGED <<ph, res>>
  /\ UNCHANGED <<ncalls, call, chq, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, out, conn, log>>

EnvPush(a) ==
  /\ IF chclosed[a.k] THEN UNCHANGED <<chq, npush>>
     ELSE /\ npush' = [npush EXCEPT ![a.k] = @ + 1]
          /\ chq' = [chq EXCEPT ![a.k] = Append(@, npush[a.k] + 1)]
  /\ UNCHANGED <<ncalls, call, ph, res, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, out, conn, log>>

EnvClose(a) ==
  /\ chclosed' = [chclosed EXCEPT ![a.k] = TRUE]
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, out, conn, log>>

CloseUploads(u) == [s \in Streams |-> IF u[s] = "open" THEN "closed" ELSE u[s]]

(* the transport ends *)
EnvDrop(a) ==
  /\ alive' = FALSE
  /\ inbox' = <<>> /\ chunk' = <<>>
  /\ up' = CloseUploads(up)
  /\ UNCHANGED <<ncalls, call, ph, res, chq, npush, chclosed, cancelled, upq, upn, upsent, ncancel, njunk, out, conn, log>>

Env(a) ==
  CASE a.a = "send"   -> EnvSend(a)
    [] a.a = "cancel" -> EnvCancel(a)
    [] a.a = "uitem"  -> EnvUItem(a)
    [] a.a = "udone"  -> EnvUDone(a)
    [] a.a = "rel"    -> EnvRelease(a)
    [] a.a = "push"   -> EnvPush(a)
    [] a.a = "close"  -> EnvClose(a)
    [] a.a = "drop"   -> EnvDrop(a)
    [] a.a \in {"ping", "storm", "crowd", "herd"} -> EnvNoise(a)
    [] a.a = "junk"   -> EnvJunk(a)
    [] a.a = "nbr"    -> EnvNeighbour(a)

-----------------------------------------------------------------------------
(* Internal actions *)

Write(k, s) == IF alive /\ call[k].hasid THEN out' = [out EXCEPT ![k] = Append(@, s)] ELSE UNCHANGED out

(* a protocol violation ends the connection with a close message *)
Kill ==
  /\ alive' = FALSE
  /\ conn' = Append(conn, "close")
  /\ inbox' = <<>> /\ chunk' = <<>>
  /\ up' = CloseUploads(up)

DispatchInv(k) ==
  LET c == call[k]
      us == Uploads(c.m)
      full == Cap > 0 /\ Cardinality(OpenUploads) + Cardinality(us) > Cap /\ us # {}
  IN /\ inbox' = Tail(inbox)
     /\ IF c.m \in Unfit \/ (c.ty = 4 /\ NumOut(c.m) # 1) \/ full
        THEN \* like any other answer it might come too late when the connection ends
             /\ ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "err"]
             /\ up' = [s \in Streams |-> IF s[1] = k /\ s[2] \in us THEN "refused" ELSE up[s]]
        ELSE /\ ph' = [ph EXCEPT ![k] = "exec"] /\ UNCHANGED res
             /\ up' = [s \in Streams |-> IF s[1] = k /\ s[2] \in us THEN "open" ELSE up[s]]
     /\ UNCHANGED <<out, chq, upq, cancelled, alive, chunk, conn>>

(* The implementation may complete a cancelled stream at once or when the
   method produces its next item or closes; both are allowed. *)
DispatchCancel(k) ==
  /\ inbox' = Tail(inbox)
  /\ \E now \in BOOLEAN :
       IF Active(k) /\ call[k].ty = 4 /\ IsChan(call[k].m)
       THEN IF now /\ ph[k] = "streaming" /\ k \notin cancelled
            THEN /\ Write(k, "void") /\ ph' = [ph EXCEPT ![k] = "done"]
                 /\ cancelled' = cancelled \cup {k}
            ELSE /\ ~now /\ cancelled' = cancelled \cup {k} /\ UNCHANGED <<out, ph>>
       ELSE /\ ~now /\ UNCHANGED <<out, ph, cancelled>>
  /\ UNCHANGED <<res, chq, upq, up, alive, chunk, conn>>

(* Messages for a stream which is not open end the connection. For a stream which was refused they may also be
   ignored. *)
Ignore == inbox' = Tail(inbox) /\ UNCHANGED <<upq, up, alive, chunk, conn, ph, res, chq, cancelled, out>>

DispatchUItem(msg) ==
  LET s == <<msg.k, msg.s>> IN
  \/ up[s] = "refused" /\ Ignore
  \/ IF up[s] = "open"
     THEN /\ Len(upq[s]) < BufCap  \* otherwise the loop waits until the method reads
          /\ inbox' = Tail(inbox)
          /\ upq' = [upq EXCEPT ![s] = Append(@, msg.n)]
          /\ UNCHANGED <<up, alive, chunk, conn, ph, res, chq, cancelled, out>>
     ELSE /\ Kill /\ UNCHANGED <<upq, ph, res, chq, cancelled, out>>

DispatchUDone(msg) ==
  LET s == <<msg.k, msg.s>> IN
  \/ up[s] = "refused" /\ Ignore
  \/ IF up[s] = "open"
     THEN /\ up' = [up EXCEPT ![s] = "closed"]
          /\ IF msg.how = "result" /\ upn[s] > 0
             THEN \* a result after items: the stream ends, and then the connection
                  inbox' = <<[t |-> "die"]>> /\ chunk' = <<>> /\ UNCHANGED upq
             ELSE /\ inbox' = Tail(inbox) /\ UNCHANGED chunk
                  /\ upq' = IF msg.how = "result" THEN [upq EXCEPT ![s] = Append(@, 0)] ELSE upq
          /\ UNCHANGED <<alive, conn, ph, res, chq, cancelled, out>>
     ELSE /\ Kill /\ UNCHANGED <<upq, ph, res, chq, cancelled, out>>

(* ... is ignored (or answered with an error, which the driver does not report), or ends the connection *)
DispatchJunk ==
  \/ Ignore
  \/ Kill /\ UNCHANGED <<upq, ph, res, chq, cancelled, out>>
  \/ /\ alive' = FALSE /\ inbox' = <<>> /\ chunk' = <<>> /\ up' = CloseUploads(up)
     /\ UNCHANGED <<upq, ph, res, chq, cancelled, out, conn>>

Dispatch ==
  /\ alive /\ inbox # <<>>
  /\ LET msg == Head(inbox) IN
       CASE msg.t = "inv"    -> DispatchInv(msg.k)
         [] msg.t = "cancel" -> DispatchCancel(msg.k)
         [] msg.t = "uitem"  -> DispatchUItem(msg)
         [] msg.t = "udone"  -> DispatchUDone(msg)
         [] msg.t = "noise"  -> Ignore
         [] msg.t = "die"    -> Kill /\ UNCHANGED <<upq, ph, res, chq, cancelled, out>>
         [] msg.t = "junk"   -> DispatchJunk
  /\ UNCHANGED <<ncalls, call, npush, chclosed, upn, upsent, ncancel, njunk, log>>

Run(k) ==
  /\ ph[k] = "exec"
  /\ log' = [log EXCEPT ![k][3] = Append(@, "call")]
  /\ LET m == call[k].m IN
       CASE m = "val"   -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "val"]
         [] m = "void"  -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "void"]
         [] m = "two"   -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "val2"]
         [] m = "noenc" -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "err"]
         [] m \in {"panic", "uppanic"} -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "errp"]
         [] m = "upleave" -> ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "val"]
         [] m \in {"gate", "gvoid", "gchan", "gup"} -> ph' = [ph EXCEPT ![k] = "gated"] /\ UNCHANGED res
         [] m = "chan"  -> ph' = [ph EXCEPT ![k] = IF call[k].ty = 1 THEN "await" ELSE "streaming"] /\ UNCHANGED res
         [] m \in {"up", "up2"} -> ph' = [ph EXCEPT ![k] = "uploading"] /\ UNCHANGED res
  /\ UNCHANGED <<ncalls, call, chq, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, out, conn>>

Reply(k) ==
  /\ ph[k] = "ret"
  /\ IF call[k].ty = 4 /\ res[k] = "val"
     THEN Write(k, "item:val") /\ res' = [res EXCEPT ![k] = "void"] /\ UNCHANGED ph
     ELSE Write(k, res[k]) /\ ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED res
  /\ UNCHANGED <<ncalls, call, chq, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, conn, log>>

Forward(k) ==
  /\ ph[k] \in {"streaming", "await"}
  /\ chq[k] # <<>> \/ chclosed[k]
  /\ IF ~alive \/ ~call[k].hasid
     THEN ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED <<chq, out>>
     ELSE IF ph[k] = "await"
     THEN /\ ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED chq
          /\ IF chq[k] # <<>> THEN Write(k, "item" \o ToString(Head(chq[k]))) ELSE Write(k, "err")
     ELSE IF chq[k] = <<>> \/ k \in cancelled
     THEN /\ ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED chq /\ Write(k, "void")
     ELSE /\ chq' = [chq EXCEPT ![k] = Tail(@)] /\ UNCHANGED ph
          /\ Write(k, "item:" \o ToString(Head(chq[k])))
  /\ UNCHANGED <<ncalls, call, res, npush, chclosed, cancelled, upq, upn, up, upsent, inbox, chunk, alive, ncancel, njunk, conn, log>>

Consume(s) ==
  LET k == s[1] IN
  /\ ph[k] = "uploading"
  /\ s[2] \in Uploads(call[k].m)
  /\ \/ /\ upq[s] # <<>>
        /\ upq' = [upq EXCEPT ![s] = Tail(@)]
        /\ log' = [log EXCEPT ![k][s[2]] = Append(@, "item:" \o ToString(Head(upq[s])))]
        /\ UNCHANGED <<up, ph, res>>
     \/ /\ upq[s] = <<>> /\ up[s] = "closed"
        /\ up' = [up EXCEPT ![s] = "ended"]
        /\ log' = [log EXCEPT ![k][s[2]] = Append(@, "end")]
        /\ UNCHANGED upq
        /\ IF \A i \in Uploads(call[k].m) : up'[<<k, i>>] = "ended"
           THEN ph' = [ph EXCEPT ![k] = "ret"] /\ res' = [res EXCEPT ![k] = "val"]
           ELSE UNCHANGED <<ph, res>>
  /\ UNCHANGED <<ncalls, call, chq, npush, chclosed, cancelled, upn, upsent, inbox, chunk, alive, ncancel, njunk, out, conn>>

Internal ==
  \/ Dispatch
  \/ \E k \in Calls : Run(k) \/ Reply(k) \/ Forward(k)
  \/ \E s \in Streams : Consume(s)

Quiet == ~ENABLED Internal

-----------------------------------------------------------------------------
(* The environment actions worth exploring in the current state *)
Mores == IF Len(chunk) + 1 < Batch THEN BOOLEAN ELSE {FALSE}

SendActs ==
  IF ncalls = NCalls \/ ~alive THEN {}
  ELSE {[a |-> "send", m |-> m, ty |-> ty, hasid |-> i, more |-> mo] :
           m \in Methods, ty \in {1, 4}, i \in BOOLEAN, mo \in Mores}

MsgActs ==
  IF ~alive THEN {}
  ELSE (IF ncancel = MaxCancels THEN {}
        ELSE {[a |-> "cancel", k |-> k, more |-> mo] : mo \in Mores,
                 k \in {k \in 1..ncalls : IsChan(call[k].m) /\ call[k].ty = 4 /\ call[k].hasid}})
  \cup (IF Len(njunk) = MaxJunk THEN {}
        ELSE {[a |-> "junk", kind |-> j, more |-> mo] : mo \in Mores, j \in Junks}
             \cup {[a |-> n, more |-> mo] : mo \in Mores, n \in {"ping", "storm", "crowd", "herd"}})
  \cup {[a |-> "uitem", k |-> s[1], s |-> s[2], more |-> mo] : mo \in Mores,
           s \in {s \in Streams : s[1] <= ncalls /\ s[2] \in Uploads(call[s[1]].m) /\ upn[s] < MaxItems
                     /\ ~upsent[s]}}
  \cup {[a |-> "udone", k |-> s[1], s |-> s[2], how |-> h, more |-> mo] : mo \in Mores, h \in {"void", "error", "result"},
           s \in {s \in Streams : s[1] <= ncalls /\ s[2] \in Uploads(call[s[1]].m) /\ ~upsent[s]}}

LocalActs ==
  IF chunk # <<>> THEN {}
  ELSE {[a |-> "rel", k |-> k, how |-> h] : k \in {k \in Calls : ph[k] = "gated"}, h \in {"val", "panic"}}
  \cup {[a |-> "push", k |-> k] : k \in {k \in Calls : ph[k] \in {"gated", "await", "streaming"} /\ IsChan(call[k].m)
                                            /\ npush[k] < MaxItems /\ ~chclosed[k]}}
  \cup {[a |-> "close", k |-> k] : k \in {k \in Calls : ph[k] \in {"gated", "await", "streaming"} /\ IsChan(call[k].m)
                                             /\ ~chclosed[k]}}
  \cup (IF alive /\ ncalls > 0 /\ inbox = <<>> THEN {[a |-> "drop"]} ELSE {})
  \cup (IF alive /\ Len(njunk) < MaxJunk THEN {[a |-> "nbr", kind |-> j] : j \in Nbrs} ELSE {})

EnvActs == SendActs \cup MsgActs \cup LocalActs

-----------------------------------------------------------------------------
(* Properties *)
Completions == {"val", "val2", "void", "err", "errp"} \cup {"item" \o ToString(n) : n \in 0..MaxItems}
ItemSeq(n) == [i \in 1..n |-> "item:" \o ToString(i)]
NComp(k) == Cardinality({i \in DOMAIN out[k] : out[k][i] \in Completions})

TypeOK ==
  /\ ncalls \in 0..NCalls
  /\ \A k \in Calls : ph[k] \in {"new", "exec", "gated", "uploading", "ret", "await", "streaming", "done"}

(* C01: at most one completion, nothing after it, none without id *)
AnsweredAtMostOnce ==
  \A k \in Calls :
    /\ NComp(k) <= 1
    /\ NComp(k) = 1 => out[k][Len(out[k])] \in Completions
    /\ ~call[k].hasid => out[k] = <<>>

(* C01: a call which is finished is answered *)
FinishedIsAnswered ==
  \A k \in Calls : alive /\ ph[k] = "done" /\ call[k].hasid => NComp(k) = 1

(* C01: a quiet connection owes no answer; only calls waiting for the environment are open *)
NoAnswerOwed ==
  Quiet /\ alive /\ chunk = <<>> /\ inbox = <<>> =>
     \A k \in 1..ncalls : \/ ph[k] = "done"
                          \/ ph[k] = "gated"
                          \/ ph[k] \in {"await", "streaming"} /\ ~chclosed[k] /\ chq[k] = <<>>
                          \/ ph[k] = "uploading" /\ \E i \in Uploads(call[k].m) : ~upsent[<<k, i>>]

(* C03: items are a prefix of what was produced; complete if not cancelled *)
StreamOrder ==
  \A k \in Calls :
    call[k].ty = 4 /\ IsChan(call[k].m) =>
      LET items == SelectSeq(out[k], LAMBDA x : x \notin Completions) IN
        /\ items = ItemSeq(Len(items))
        /\ Len(items) <= npush[k]
        /\ alive /\ NComp(k) = 1 /\ k \notin cancelled /\ "errp" \notin {out[k][i] : i \in DOMAIN out[k]}
             => Len(items) = npush[k] /\ chclosed[k]

(* C03 as an action property: after a cancellation no item is written *)
NoItemAfterCancel ==
  [][\A k \in Calls : k \in cancelled /\ Len(out'[k]) > Len(out[k]) => out'[k][Len(out'[k])] \in Completions]_vars

(* C04 *)
UploadOrder ==
  \A s \in Streams :
    LET k == s[1]
        got == log[k][s[2]]
        items == SelectSeq(got, LAMBDA x : x # "end" /\ x # "item:0")
    IN /\ items = ItemSeq(Len(items))
       /\ Len(items) <= upn[s]
       /\ \A i \in DOMAIN got : got[i] = "end" => i = Len(got)
       /\ Quiet /\ alive /\ chunk = <<>> /\ inbox = <<>> /\ ph[k] = "uploading" => Len(items) = upn[s]

UploadsEnd ==
  Quiet /\ ~alive => \A k \in Calls : ph[k] # "uploading"

CapRespected == Cap > 0 => Cardinality(OpenUploads) <= Cap

Spec == Init /\ [][Internal \/ \E a \in EnvActs : Env(a)]_vars
=============================================================================
