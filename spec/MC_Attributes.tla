---------------------------- MODULE MC_Attributes ----------------------------
(* A frame and a decomposer list changing under a Manager: what is listed is *)
(* always what can be answered.                                              *)
EXTENDS Attributes
CONSTANTS MaxStored, MaxDecs
VARIABLES fr, ds
vars == <<fr, ds>>
U == <<85>>  Ux == <<85, 120>>
StoreNames == {U, Ux, U \o <<49>>, POS, IND}
Shapes == {Mk(is, 1, dim, [k \in 1..is |-> 0]) : is \in {1, 2, 3, 4, 6, 9}, dim \in {2, 3}}
Decs == {[k |-> "comp"], [k |-> "coord", names |-> <<<<120>>, <<121>>, <<122>>>>], [k |-> "eval"], [k |-> "evec"],
         [k |-> "normals", name |-> U], [k |-> "area", name |-> <<97>>], [k |-> "valence", name |-> <<97>>],
         [k |-> "user", is |-> 3, name |-> U, src |-> Ux], [k |-> "user", is |-> 1, name |-> <<97>>, src |-> U]}
Init == fr = <<>> /\ ds = <<>>
Without(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]
Next == \/ \E n \in StoreNames, s \in Shapes : (n \in DOMAIN fr \/ Cardinality(DOMAIN fr) < MaxStored) /\ fr' = (n :> s) @@ fr /\ UNCHANGED ds
        \/ \E n \in DOMAIN fr : fr' = Without(fr, n) /\ UNCHANGED ds
        \/ \E d \in Decs : Len(ds) < MaxDecs /\ ds' = Append(ds, d) /\ UNCHANGED fr
        \/ ds' = <<>> /\ UNCHANGED fr
Spec == Init /\ [][Next]_vars
Sizes == {1, 2, 3, 4, 6, 9}
\* Every derived name can be answered by the decomposer that lists it.
ListedIsAnswered == \A k \in 1..Len(ds) : \A is \in Sizes : \A n \in Lists(ds[k], fr, is) : Answers(ds[k], fr, is, n)
\* ... and a component name is the name of at least one column, of as many items.
ComponentsExist == \A is \in Sizes : \A n \in Lists([k |-> "comp"], fr, is) :
    /\ Components(fr, n) # {}
    /\ \A c \in Components(fr, n) : WF(c) /\ c.is = 1
\* Components of one Serie never share a name; their number is its item size.
SuffixesDiffer == \A n \in DOMAIN fr : LET q == SuffixesOf(fr[n]) IN
    (fr[n].is > 1 => Len(q) = fr[n].is) /\ \A i \in 1..Len(q) : \A j \in 1..(i - 1) : q[i] # q[j]
OrderIsTotal == \A a, b \in Listed(fr, ds, 1, 3) : a = b \/ (Before(a, b) # Before(b, a))
=============================================================================
