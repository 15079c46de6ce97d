-------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* C26: the text of a value. Values are quarters, or one of the specials.    *)
(***************************************************************************)
EXTENDS Series
NL == "\n"
\* Texts one after the other, in halves, so that long ones stay cheap.
RECURSIVE Cat(_)
Cat(q) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET h == Len(q) \div 2 IN Cat(SubSeq(q, 1, h)) \o Cat(SubSeq(q, h + 1, Len(q)))
Joined(q, sep) == Cat([k \in 1..Len(q) |-> IF k = Len(q) THEN q[k] ELSE q[k] \o sep])

Base == 100000000
Special == <<"-0", "inf", "-inf", "nan", "1e+06", "1e-05", "0.1", "1e+100", "123457", "0.333333", "-2.5e-07",
             "1.79769e+308", "4.94066e-324", "1.23457e+06", "-100000", "2.14748e+09">>
Signed(q, t) == IF q < 0 THEN "-" \o t ELSE t
Whole(q) == ToString(Abs(q) \div 4)
\* six significant digits at most, no more than needed; or two decimals; or six
Short(q) == IF q >= Base THEN Special[q - Base + 1] ELSE Signed(q, Whole(q) \o <<"", ".25", ".5", ".75">>[(Abs(q) % 4) + 1])
Cents(q) == Signed(q, Whole(q) \o <<".00", ".25", ".50", ".75">>[(Abs(q) % 4) + 1])
Num(q, fixed) == IF fixed = 1 THEN Cents(q) ELSE Short(q)
Nums(v, fixed) == [k \in 1..Len(v) |-> Num(v[k], fixed)]

OfArray(v, fixed) == "[" \o Joined(Nums(v, fixed), ", ") \o "]"
OfStrings(l) == Cat([k \in 1..Len(l) |-> "  " \o l[k] \o NL]) \o NL
Head0(s) == Cat(<<"Serie:\n  itemSize : ", ToString(s.is), "\n  count    : ", ToString(s.n), "\n  dimension: ", ToString(s.dim), "\n  values   : ">>)
OfSerie(s, fixed) == Head0(s) \o OfArray(s.v, fixed)
OfSeries(ss, fixed) == ToString(Len(ss)) \o " series:\n" \o Cat([k \in 1..Len(ss) |-> OfSerie(ss[k], fixed) \o NL])
\* print: item by item
OfItem(s, i) == IF s.is = 1 THEN Short(s.v[i]) ELSE "(" \o Joined(Nums(Item(s, i), 0), ",") \o ")"
Printed1(s) == Cat(<<Head0(s), "[", Joined([i \in 1..s.n |-> OfItem(s, i)], ", "), "]", NL>>)
PrintedAll(ss) == IF Len(ss) = 1 THEN Printed1(ss[1])
                  ELSE Cat([k \in 1..Len(ss) |-> Cat(<<"Series ", ToString(k), ":\n", Printed1(ss[k])>>)])
\* dump: one line per item, one per name; and messages
Dumped(s) == Cat([i \in 1..s.n |-> Cat(<<ToString(i - 1), ": ", Cat([j \in 1..s.is |-> Short(At(s, i, j)) \o " "]), NL>>)]) \o NL
FrameDumped(names, ss) == Cat([k \in 1..Len(names) |-> Cat(<<"name: \"", names[k], "\", itemSize: ", ToString(ss[k].is), ", count: ", ToString(ss[k].n), NL>>)])
Pieces(p) == Joined(p, " ")
VectorText(v) == Cat([k \in 1..Len(v) |-> Cents(v[k]) \o "0000\t"])
=============================================================================
