----------------------------- MODULE MC_Equality -----------------------------
(* Two Series compared one component at a time, in any order, until one       *)
(* differs: the verdict is Equal; masks agree with it.                        *)
EXTENDS Equality, IOUtils
Big == IOEnv.TIER = "thorough"
Vals == IF Big THEN {-1, 0, 1, 3} ELSE {0, 1, 3}
Eps == {0, 1}
VARIABLES s, t, eps, left, verdict
vars == <<s, t, eps, left, verdict>>
Sers == {Mk(0, 0, 3, <<>>)} \cup {Mk(sh[1], sh[2], d, v) : sh \in {<<1, 0>>, <<1, 2>>, <<2, 1>>}, d \in {2, 3}, v \in [1..2 -> Vals]}
Fixed(x) == IF Len(x.v) = Size(x) THEN x ELSE [x EXCEPT !.v = <<>>]
Pool == {Fixed(x) : x \in Sers}
Init == s \in Pool /\ t \in Pool /\ eps \in Eps /\ verdict = (Alike(s, t) /\ s.dim = t.dim)
        /\ left = IF Alike(s, t) /\ s.dim = t.dim THEN 1..Len(s.v) ELSE {}
Next == \E k \in left : /\ IF Near(s.v[k], t.v[k], eps) THEN left' = left \ {k} /\ verdict' = verdict ELSE left' = {} /\ verdict' = FALSE
                        /\ UNCHANGED <<s, t, eps>>
Spec == Init /\ [][Next]_vars
Decided == left = {} => verdict = Equal(s, t, eps)
Laws == /\ Equal(s, t, eps) = Equal(t, s, eps) /\ (Valid(s) => Equal(s, s, eps))
        /\ (Equal(s, t, 0) => Equal(s, t, eps)) /\ (Equal(s, t, 0) <=> Valid(s) /\ s = t)
        /\ AllEqual(<<s>>, eps) /\ (AllEqual(<<s, t>>, eps) <=> Equal(s, t, eps)) /\ (AllEqual(<<s, t, s>>, 0) <=> Equal(s, t, 0))
        /\ Alike(s, t) => /\ (s.dim = t.dim => (Equal(s, t, eps) <=> \A i \in 1..s.n : Mask(s, t, eps)[i] = 1))
                          /\ Mask(s, t, eps) = Mask(t, s, eps)
=============================================================================
