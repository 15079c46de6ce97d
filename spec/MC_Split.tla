------------------------------ MODULE MC_Split -------------------------------
(* Cutting parts off the front one after the other, then joining Series by    *)
(* appending and in turns, against the closed forms the code is judged by.    *)
EXTENDS Split
CONSTANTS MaxN, MaxParts
VARIABLES ss, n, parts, start, round, who, woven
vars == <<ss, n, parts, start, round, who, woven>>
\* Distinct values tell every item apart: value = 100*serie + position.
Src(is, cnt, k) == Mk(is, cnt, 2, [x \in 1..(is * cnt) |-> 100 * k + x])
Init == /\ \E is \in 1..2 : \E c \in [1..3 -> 0..MaxN] : ss = [k \in 1..3 |-> Src(is, c[k], k)]
        /\ n \in 1..MaxParts
        /\ parts = <<>> /\ start = 0 /\ round = 1 /\ who = 1 /\ woven = <<>>
Cut == /\ Len(parts) < n
       /\ LET left == ss[1].n - start
              k == n - Len(parts)                      \* parts still to make
              size == (left + k - 1) \div k            \* round up: larger first
          IN parts' = Append(parts, Slice(ss[1], start + 1, start + size)) /\ start' = start + size
       /\ UNCHANGED <<ss, n, round, who, woven>>
Weave == /\ Len(woven) < TotalCount(ss)
         /\ woven' = IF round <= ss[who].n THEN Append(woven, Item(ss[who], round)) ELSE woven
         /\ who' = IF who = Len(ss) THEN 1 ELSE who + 1
         /\ round' = IF who = Len(ss) THEN round + 1 ELSE round
         /\ UNCHANGED <<ss, n, parts, start>>
Next == Cut \/ (Len(parts) = n /\ Weave)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CutsAreTheParts == \A i \in 1..Len(parts) : parts[i] = Part(ss[1], n, i)
Lossless == Len(parts) = n =>
    /\ ConcatV(parts) = ss[1].v
    /\ Concat(PartitionOne(ss[1], n)) = ss[1]
    /\ \A i \in 1..n - 1 : parts[i].n - parts[i + 1].n \in {0, 1}
    /\ parts[1].n - parts[n].n \in {0, 1}
    /\ \A i \in 1..PartsOf(ss[1].n, n) : ss[1].n > 0 => PartitionOne(ss[1], n)[i].n > 0
Weaves == Len(woven) = TotalCount(ss) => IsInterleave(ss, FromItems(ss[1].is, 2, woven))
\* Every item has exactly one place.
Bijective == LET P == {<<k, i>> \in (1..3) \X (1..MaxN) : i <= ss[k].n} IN
    {Place(ss, q[1], q[2]) : q \in P} = 1..TotalCount(ss)
ConcatAssoc == ConcatV(<<Concat(<<ss[1], ss[2]>>), ss[3]>>) = ConcatV(ss)
Ends == <>(Len(woven) = TotalCount(ss))
=============================================================================
