--------------------------- MODULE DataframeStore ----------------------------
(***************************************************************************)
(* C03: a Dataframe is a map from names to Series with a frame count.      *)
(***************************************************************************)
EXTENDS Series
Blank == Mk(0, 0, 3, <<>>)
Zeros(is, n, dim, z) == Mk(is, n, dim, [k \in 1..(is * n) |-> z])
Empty(c) == [cnt |-> c, m |-> [x \in {} |-> Blank]]
Names(f) == DOMAIN f.m
Put(m, n, s) == [x \in DOMAIN m \cup {n} |-> IF x = n THEN s ELSE m[x]]
Added(f, n, s) == [cnt |-> IF f.cnt = 0 THEN s.n ELSE f.cnt, m |-> Put(f.m, n, s)]
Deleted(f, n) == [f EXCEPT !.m = [x \in DOMAIN f.m \ {n} |-> f.m[x]]]
Cleared(f) == [f EXCEPT !.m = [x \in {} |-> Blank]]
Counted(f, c, z) == IF c = f.cnt \/ c = 0 THEN f
                    ELSE [cnt |-> c, m |-> [x \in DOMAIN f.m |-> Zeros(f.m[x].is, c, f.m[x].dim, z)]]
Reached(f, n) == IF n \in Names(f) THEN f ELSE [f EXCEPT !.m = Put(f.m, n, Blank)]
Assigned(f, n, s) == [f EXCEPT !.m = Put(f.m, n, s)]
Looked(f, n) == IF n \in Names(f) THEN f.m[n] ELSE Blank
=============================================================================
