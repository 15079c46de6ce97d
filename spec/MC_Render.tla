------------------------------ MODULE MC_Render ------------------------------
(* A writer that puts pieces of text to one of several streams, value after   *)
(* value: when it is done that stream has the text of the whole, the others   *)
(* nothing. And texts determine what they are of.                             *)
EXTENDS Render, IOUtils
Big == IOEnv.TIER = "thorough"
CONSTANT Stray     \* a writer that puts its values where it should not
Vals == {-10, 0, 4, Base + 3}
Arrays == UNION {[1..n -> Vals] : n \in 0..(IF Big THEN 4 ELSE 3)}
SeriesSet == {[is |-> is, n |-> n, dim |-> d, v |-> v] : is \in 1..2, n \in 0..2, d \in 2..3, v \in Arrays}
Sers == {s \in SeriesSet : WF(s)}
VARIABLES s, to, at, got
vars == <<s, to, at, got>>
Init == s \in Sers /\ to \in 1..2 /\ at = 0 /\ got = [k \in 1..2 |-> ""]
Put(k, t) == got' = [got EXCEPT ![k] = @ \o t]
Where == IF Stray THEN 1 ELSE to
Next == \/ at = 0 /\ at' = 1 /\ Put(to, Head0(s) \o "[") /\ UNCHANGED <<s, to>>
        \/ at \in 1..Len(s.v) /\ at' = at + 1 /\ Put(Where, Short(s.v[at]) \o (IF at < Len(s.v) THEN ", " ELSE "")) /\ UNCHANGED <<s, to>>
        \/ at = Len(s.v) + 1 /\ at' = at + 1 /\ Put(to, "]") /\ UNCHANGED <<s, to>>
Spec == Init /\ [][Next]_vars
Written == at = Len(s.v) + 2 => got = [k \in 1..2 |-> IF k = to THEN OfSerie(s, 0) ELSE ""]
\* Nothing is lost: different values, different texts.
Small == {x \in Sers : Len(x.v) <= 2}
ASSUME Cardinality({OfArray(v, 0) : v \in Arrays}) = Cardinality(Arrays)
ASSUME Cardinality({OfSerie(x, 0) : x \in Sers}) = Cardinality(Sers) /\ Cardinality({Printed1(x) : x \in Sers}) = Cardinality(Sers)
ASSUME LET L == UNION {[1..n -> Small] : n \in 0..2} IN Cardinality({OfSeries(x, 0) : x \in L}) = Cardinality(L)
ASSUME LET L == UNION {[1..n -> Small] : n \in 1..2} IN Cardinality({PrintedAll(x) : x \in L}) = Cardinality(L)
ASSUME \A q \in -9..9 : Short(4 * q) = ToString(q)
=============================================================================
