------------------------------- MODULE MC_Zip --------------------------------
(* The zipper fills the result scalar by scalar, Serie after Serie; zip and   *)
(* unzip are inverse to each other.                                           *)
EXTENDS Zip
CONSTANTS MaxN, MaxIs, MaxSeries
VARIABLES ss, k, i, j, out
vars == <<ss, k, i, j, out>>
Src(is, n, q) == Mk(is, n, 2, [x \in 1..(is * n) |-> 100 * q + x])
Width == SumSeq(SizesOf(ss))
Init == /\ \E m \in 1..MaxSeries : \E n \in 0..MaxN : \E is \in [1..m -> 1..MaxIs] : ss = [q \in 1..m |-> Src(is[q], n, q)]
        /\ k = 1 /\ i = 1 /\ j = 1
        /\ out = [x \in 1..(SumSeq(SizesOf(ss)) * ss[1].n) |-> 0]
Done == k > Len(ss)
Copy == /\ ~Done
        /\ IF ss[k].n = 0 THEN k' = k + 1 /\ UNCHANGED <<i, j, out>>
           ELSE /\ out' = [out EXCEPT ![(i - 1) * Width + Before(SizesOf(ss), k) + j] = At(ss[k], i, j)]
                /\ IF j < ss[k].is THEN j' = j + 1 /\ UNCHANGED <<i, k>>
                   ELSE j' = 1 /\ IF i < ss[k].n THEN i' = i + 1 /\ UNCHANGED k ELSE i' = 1 /\ k' = k + 1
        /\ UNCHANGED ss
Next == Copy
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == Mk(Width, ss[1].n, 2, out)
Zips == Done => IsZip(ss, Result)
RoundTrip == Done => Unzip(Result, SizesOf(ss)) = ss
\* and the other way round: any way of cutting an item and putting it back.
Back == Done => \A m \in 1..3 : \A z \in [1..m -> 0..Width] :
            Fits(Result, z) /\ (\A q \in 1..m : z[q] > 0) => IsZip(Unzip(Result, z), Result)
Ends == <>Done
=============================================================================
