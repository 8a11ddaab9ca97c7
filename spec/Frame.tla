-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* The byte stream of a connection.  The peer sends messages, cut into     *)
(* chunks in any way: every message consists of P pieces, and a chunk is   *)
(* the rest of the message which is under way, any number of whole         *)
(* messages, and the beginning of the next one.  The first message is the  *)
(* handshake.                                                              *)
(*                                                                         *)
(* Messages larger than the limit are never dispatched: the connection     *)
(* ends when they are complete at the latest.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NMsg,    \* messages after the handshake
          P,       \* pieces of a message
          Kinds,   \* SUBSET {"inv", "ping", "up", "item"}
          Sizes,   \* SUBSET {"s", "m", "x", "o", "b"}: small, medium, just within the limit, just over it, far over it
          Batch,   \* whole messages in a chunk
          Notes,   \* messages which the other side sends at the same time; {0}: none
          Feats    \* SUBSET {"eof", "steps"}

Over == {"o", "b"}
Msgs == 1..NMsg

VARIABLES
  cur,    \* the message under way [k, z, i, left]
  n,      \* messages begun
  up,     \* number of the message which opened the upload stream, or 0
  open,   \* the upload stream was opened
  seen,   \* [Msgs -> "": not dispatched, "d": dispatched]
  items,  \* items received by the upload method
  st,     \* hs (handshake not complete), up, ended
  notes,  \* messages sent by the other side
  todo,
  mark    \* how the connection ended

vars == <<cur, n, up, open, seen, items, st, notes, todo, mark>>

None == [k |-> "none", z |-> "s", i |-> 0, left |-> 0]
Init ==
  /\ cur = [k |-> "hs", z |-> "s", i |-> 0, left |-> P]
  /\ n = 0 /\ up = 0 /\ open = FALSE
  /\ seen = [i \in Msgs |-> ""]
  /\ items = <<>>
  /\ st = "hs" /\ notes = 0
  /\ todo = <<>> /\ mark = ""

-----------------------------------------------------------------------------
(* What arrives completely, in order *)
Arrive(m) ==
  IF st = "ended" THEN UNCHANGED <<st, seen, items, open>>
  ELSE CASE m.k = "hs" -> st' = "up" /\ UNCHANGED <<seen, items, open>>
         [] m.z \in Over -> st' = "ended" /\ UNCHANGED <<seen, items, open>>
         [] OTHER -> /\ seen' = IF m.k \in {"inv", "up"} THEN [seen EXCEPT ![m.i] = "d"] ELSE seen
                     /\ items' = IF m.k = "item" THEN Append(items, m.i) ELSE items
                     /\ open' = (open \/ m.k = "up")
                     /\ UNCHANGED st

Complete(m) == [k |-> m.k, z |-> m.z, i |-> m.i]

(* chunk: fin pieces of cur, then the whole messages ms, then tail.left pieces are left of the last message *)
Env(a) ==
  CASE a.a = "chunk" ->
         /\ todo' = (IF cur.k # "none" /\ a.fin = cur.left THEN <<Complete(cur)>> ELSE <<>>)
                    \o [j \in DOMAIN a.ms |-> [k |-> a.ms[j].k, z |-> a.ms[j].z, i |-> n + j]]
                    \o (IF (a.tail.k # "none" /\ a.tail.z \in Over) \/ (cur.left > a.fin /\ cur.z \in Over) THEN <<[k |-> "over", z |-> "s", i |-> 0]>> ELSE <<>>)
                    \o (IF a.eof THEN <<[k |-> "eof", z |-> "s", i |-> 0]>> ELSE <<>>)
         /\ cur' = IF a.fin < cur.left THEN [cur EXCEPT !.left = @ - a.fin]
                   ELSE IF a.tail.k = "none" THEN None
                   ELSE [k |-> a.tail.k, z |-> a.tail.z, i |-> n + Len(a.ms) + 1, left |-> a.tail.left]
         /\ n' = n + Len(a.ms) + (IF a.tail.k = "none" THEN 0 ELSE 1)
         /\ up' = LET all == [j \in DOMAIN a.ms |-> a.ms[j].k] \o <<a.tail.k>>
                      ups == {j \in DOMAIN all : all[j] = "up"}
                  IN IF ups = {} THEN up ELSE n + (CHOOSE j \in ups : TRUE)
         /\ UNCHANGED <<open, seen, items, st, notes, mark>>
    [] a.a = "eof" ->
         /\ todo' = <<[k |-> "eof", z |-> "s", i |-> 0]>>
         /\ UNCHANGED <<cur, n, up, open, seen, items, st, notes, mark>>
    [] a.a = "notes" ->
         /\ notes' = notes + a.n
         /\ UNCHANGED <<cur, n, up, open, seen, items, st, todo, mark>>

Busy == todo # <<>>
Internal ==
  /\ Busy
  /\ LET m == Head(todo) IN
     /\ CASE m.k = "over" -> \* the beginning of a message which is too large may be enough to end the connection
               /\ st' \in {st, "ended"} /\ (st = "hs" => st' = st)
               /\ UNCHANGED <<seen, items, open, mark>>
          [] m.k = "eof" -> st' = "ended" /\ mark' = "eof" /\ UNCHANGED <<seen, items, open>>
          [] OTHER -> Arrive(m) /\ UNCHANGED mark
     /\ todo' = Tail(todo)
     /\ UNCHANGED <<cur, n, up, notes>>

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
(* an item needs an upload stream, there is one upload stream; the handshake is of its own kind *)
Fits(ks) == \A j \in DOMAIN ks : /\ ks[j] = "item" => up # 0 \/ \E i \in 1..(j - 1) : ks[i] = "up"
                                 /\ ks[j] = "up" => up = 0 /\ \A i \in DOMAIN ks : i # j => ks[i] # "up"
One == [k : Kinds, z : Sizes]
SeqsUpTo(m) == UNION {[1..j -> One] : j \in 0..m}
KindsOf(ms, t) == [j \in DOMAIN ms |-> ms[j].k] \o (IF t.k = "none" THEN <<>> ELSE <<t.k>>)
Tails == {[k |-> "none", z |-> "s", left |-> 0]} \cup [k : Kinds, z : Sizes, left : 1..(P - 1)]
Chunks(seqs, tails) ==
  IF st = "ended" \/ mark # "" THEN {}
  ELSE {[a |-> "chunk", fin |-> f, ms |-> <<>>, tail |-> None, eof |-> FALSE] : f \in 1..(IF cur.left = 0 THEN 0 ELSE cur.left - 1)}
       \cup {[a |-> "chunk", fin |-> cur.left, ms |-> c[1], tail |-> c[2], eof |-> e] :
               c \in {d \in seqs \X tails : /\ cur.left > 0 \/ d[1] # <<>> \/ d[2].k # "none"
                                            /\ n + Len(d[1]) + (IF d[2].k = "none" THEN 0 ELSE 1) <= NMsg
                                            /\ Fits(KindsOf(d[1], d[2]))},
               e \in {FALSE} \cup (IF "eof" \in Feats THEN {TRUE} ELSE {})}
NotesActs == IF st # "up" \/ cur.k = "hs" THEN {} ELSE {[a |-> "notes", n |-> m] : m \in {m \in Notes \ {0} : notes + m <= 2 * m}}
EofActs == IF "eof" \in Feats /\ st # "ended" THEN {[a |-> "eof"]} ELSE {}
EnvActs == Chunks(SeqsUpTo(Batch), Tails) \cup NotesActs \cup EofActs

RandomMsg == LET k == RandomElement(Kinds) IN [k |-> k, z |-> IF RandomElement(1..3) = 1 THEN RandomElement(Sizes) ELSE RandomElement(Sizes \ Over)]
WalkActs ==
  LET m == RandomElement(0..Batch)
      t == RandomElement(Tails)
      c == Chunks({<<>>, [j \in 1..m |-> RandomMsg]}, {t, [k |-> "none", z |-> "s", left |-> 0]})
      small == {a \in c : ~a.eof}
  IN (IF RandomElement(1..12) = 1 THEN c \cup EofActs ELSE small) \cup (IF RandomElement(1..4) = 1 THEN NotesActs ELSE {})

-----------------------------------------------------------------------------
(* C11, C12 *)
TypeOK == st \in {"hs", "up", "ended"} /\ cur.left \in 0..P /\ n \in 0..NMsg
(* nothing is dispatched before it is complete *)
CompleteOnly == (cur.k # "none" /\ cur.i > 0) => seen[cur.i] = ""
InOrder == \A j \in 1..(Len(items) - 1) : items[j] < items[j + 1]
NothingEarly == st = "hs" => \A i \in Msgs : seen[i] = ""
Once == [][/\ \A i \in Msgs : seen[i] = "d" => seen'[i] = "d"
           /\ items = SubSeq(items', 1, Len(items))]_vars
NothingLate == [][st = "ended" => st' = "ended" /\ seen' = seen /\ items' = items]_vars

Spec == Init /\ [][Internal \/ (~Busy /\ \E a \in EnvActs : Env(a))]_vars
=============================================================================
