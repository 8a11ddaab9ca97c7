------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values which travel between two parties.  A value is the sequence of    *)
(* its atoms, in the order of its type.  All calls of a history use one    *)
(* type.  Whatever position a value is sent in, the other side gets it.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS TypeNames,  \* the types of a history
          Positions,  \* SUBSET {"arg", "two", "down", "up", "note", "back"}
          Spread,     \* values per type
          MaxItems,   \* values in a stream
          Names,      \* SUBSET {"exact", "lower", "upper", "alt"}
          Par         \* TRUE: also calls at the same time

VARIABLES
  type,  \* the type of the history, or ""
  got,   \* what arrived because of the last action
  mark

vars == <<type, got, mark>>

-----------------------------------------------------------------------------
(* Types *)
At(a) == [k |-> "atom", a |-> a, es |-> <<>>]
Sl(t) == [k |-> "slice", a |-> "", es |-> <<t>>]
Mp(a, t) == [k |-> "map", a |-> a, es |-> <<t>>]
Pt(t) == [k |-> "ptr", a |-> "", es |-> <<t>>]
St(ts) == [k |-> "struct", a |-> "", es |-> ts]

Int == At("int")
Str == At("string")
Flat == St(<<Int, Str, At("bool"), At("float64")>>)
Opt == St(<<Pt(Int), Sl(Str), Mp("string", Int), Str, Int, Pt(Flat)>>)
Mix == St(<<At("time"), At("bytes"), Flat, Pt(Flat), Sl(Flat), Mp("string", Flat), At("any")>>)
TypeOf(n) ==
  CASE n \in {"bool", "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32", "float64",
              "string", "bytes", "time", "duration", "level", "kind", "any"} -> At(n)
    [] n = "ptr" -> Pt(Int)
    [] n = "strings" -> Sl(Str)
    [] n = "ints" -> Sl(Int)
    [] n = "bools" -> Sl(At("bool"))
    [] n = "floats" -> Sl(At("float64"))
    [] n = "matrix" -> Sl(Sl(At("int16")))
    [] n = "ptrs" -> Sl(Pt(Int))
    [] n = "anys" -> Sl(At("any"))
    [] n = "times" -> Sl(At("time"))
    [] n = "blobs" -> Sl(At("bytes"))
    [] n = "array" -> St(<<Int, Int, Int>>)
    [] n = "mapint" -> Mp("string", Int)
    [] n = "mapstr" -> Mp("string", Str)
    [] n = "mapany" -> Mp("string", At("any"))
    [] n = "maplist" -> Mp("string", Sl(Str))
    [] n = "mapkey" -> Mp("int", Str)
    [] n = "mapmap" -> Mp("string", Mp("string", Int))
    [] n = "flat" -> Flat
    [] n = "flatptr" -> Pt(Flat)
    [] n = "flats" -> Sl(Flat)
    [] n = "flatptrs" -> Sl(Pt(Flat))
    [] n = "mapflat" -> Mp("string", Flat)
    [] n = "opt" -> Opt
    [] n = "opts" -> Sl(Opt)
    [] n = "optptr" -> Pt(Opt)
    [] n = "embed" -> St(<<Flat, Int, Str>>)
    [] n = "mix" -> Mix
    [] n = "tagged" -> St(<<Int, Str, Sl(Int), Pt(Str)>>)

Signed == <<"0", "1", "-1", "max", "min", "100">>
Unsigned == <<"0", "1", "max", "200">>
Real == <<"0", "1", "-1.5", "max", "small", "0.1">>
Text == <<"empty", "a", "json", "rs", "uni", "ctl", "html", "nul", "long", "number">>
Atoms(a) ==
  CASE a = "bool" -> <<"false", "true">>
    [] a \in {"int8", "int16", "int32", "int64", "int", "duration", "kind"} -> Signed
    [] a \in {"uint8", "uint16", "uint32", "uint64", "uint"} -> Unsigned
    [] a \in {"float32", "float64"} -> Real
    [] a \in {"string", "level"} -> Text
    [] a = "bytes" -> <<"null", "0", "one", "all", "text">>
    [] a = "time" -> <<"zero", "epoch", "nano", "zone", "far", "milli">>
    [] a = "any" -> <<"nil", "true", "text", "empty", "number", "list", "map", "deep">>
Pick(s, n) == s[1 + (n % Len(s))]
KeysOf(a) == IF a = "int" THEN <<"1", "-1">> ELSE <<"a", "uni">>

RECURSIVE Value(_, _), Fields(_, _, _)
Fields(ts, n, i) == IF i > Len(ts) THEN <<>> ELSE Value(ts[i], n + 2 * i * i - i) \o Fields(ts, n, i + 1)
(* the n-th value of a type *)
Value(t, n) ==
  CASE t.k = "atom" -> <<Pick(Atoms(t.a), n)>>
    [] t.k = "struct" -> Fields(t.es, n, 1)
    [] t.k = "ptr" -> IF n % 3 = 0 THEN <<"nil">> ELSE <<"to">> \o Value(t.es[1], n \div 3 + n)
    [] t.k = "slice" -> LET c == (n + 2) % 4 IN
                        IF c = 3 THEN <<"null">>
                        ELSE <<ToString(c)>> \o (IF c >= 1 THEN Value(t.es[1], n + 1) ELSE <<>>) \o (IF c = 2 THEN Value(t.es[1], (n \div 4) + 3) ELSE <<>>)
    [] t.k = "map" -> LET c == (n + 2) % 4
                          ks == KeysOf(t.a) IN
                      IF c = 3 THEN <<"null">>
                      ELSE <<ToString(c)>> \o (IF c >= 1 THEN <<ks[1]>> \o Value(t.es[1], n + 1) ELSE <<>>)
                           \o (IF c = 2 THEN <<ks[2]>> \o Value(t.es[1], (n \div 4) + 3) ELSE <<>>)

(* a missing list or map is as good as an empty one *)
Norm(v) == [i \in DOMAIN v |-> IF v[i] = "null" THEN "0" ELSE v[i]]

-----------------------------------------------------------------------------
Init == type = "" /\ got = <<>> /\ mark = <<>>

(* What arrives: [at, v]: where, and the value *)
Ev(at, v) == [at |-> at, v |-> Norm(v)]
Arrives(a) ==
  CASE a.pos = "arg"  -> <<Ev("arg", a.vs[1]), Ev("result", a.vs[1])>>
    [] a.pos = "two"  -> <<Ev("first", a.vs[1]), Ev("second", a.vs[2])>>
    [] a.pos = "down" -> [i \in DOMAIN a.vs |-> Ev("down", a.vs[i])]
    [] a.pos = "up"   -> [i \in DOMAIN a.vs |-> Ev("up", a.vs[i])]
    [] a.pos = "note" -> <<Ev("note", a.vs[1])>>
    [] a.pos = "back" -> <<Ev("callee", a.vs[1]), Ev("back", a.vs[2])>>
Env(a) ==
  /\ type' = a.t
  /\ got' = IF a.a = "call" THEN Arrives(a) ELSE Arrives(a.x) \o Arrives(a.y)
  /\ mark' = IF a.a = "call" THEN <<a.pos, a.name, a.vs>> ELSE <<a.x.pos, a.y.pos>>

Busy == FALSE
Internal == FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* The environment actions worth exploring *)
Count(pos) == IF pos \in {"two", "back"} THEN 2 ELSE IF pos \in {"down", "up"} THEN MaxItems ELSE 1
Act(pos, t, n, name) == [a |-> "call", pos |-> pos, t |-> t, name |-> name, vs |-> [i \in 1..Count(pos) |-> Value(TypeOf(t), n + (i - 1) * 7)]]
EnvActs == {Act(pos, t, n, name) : pos \in Positions, t \in (IF type = "" THEN TypeNames ELSE {type}), n \in 0..(Spread - 1), name \in Names}
Draw(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
WalkActs ==
  LET t == IF type = "" THEN RandomElement(TypeNames) ELSE type
      one == Act(RandomElement(Positions), t, RandomElement(0..999), RandomElement(Names))
      other == Act(RandomElement(Positions), t, RandomElement(0..999), RandomElement(Names)) IN
  {one} \cup (IF Par /\ one.pos # other.pos THEN {[a |-> "both", t |-> t, x |-> one, y |-> other]} ELSE {})

-----------------------------------------------------------------------------
(* C20 *)
TypeOK == type \in TypeNames \cup {""}
Unchanged == [][type # "" => type' = type]_vars
Spec == Init /\ [][\E a \in EnvActs : Env(a)]_vars
=============================================================================
