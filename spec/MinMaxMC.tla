------------------------------- MODULE MinMaxMC -------------------------------
(* Bounds made from numbers around every limit, and all their sums. *)
EXTENDS MinMax, Json
CONSTANT FULL
VARIABLES st, hist
vars == <<st, hist>>
M1 == <<254, 255, 255, 255, 255, 255, 255, 127>>       \* limit - 1
P1 == <<0, 0, 0, 0, 0, 0, 0, 128>>                     \* limit + 1
Huge == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 9>>
Nums == {BigV(0, <<>>), BigV(0, <<1>>), BigV(0, <<44, 1>>), BigV(1, <<1>>), BigV(1, <<7>>), BigV(0, M1), BigV(0, MaxSize),
         BigV(0, P1), BigV(0, Huge), BigV(1, Huge)}
Do(e) == LET r == Step(0, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Init == st = Init0(0) /\ hist = <<>>
Some == IF FULL THEN Nums ELSE {BigV(0, <<1>>), BigV(0, M1), BigV(0, MaxSize), BigV(0, P1), BigV(1, <<7>>)}
Mk(h, via, N) == \/ \E a, b \in N : Do([op |-> "pair", h |-> h, a |-> a, b |-> b, via |-> via])
              \/ \E a \in N : Do([op |-> "min", h |-> h, a |-> a])
Next == \/ Len(hist) = 0 /\ Mk(1, 0, Nums)
        \/ Len(hist) = 1 /\ (Mk(2, 1, Some) \/ Do([op |-> "const", h |-> 2, n |-> 1]))
        \/ Len(hist) = 2 /\ Do([op |-> "add", h |-> 3, f |-> 1, g |-> 2])
        \/ Len(hist) = 3 /\ Do([op |-> "add", h |-> 4, f |-> 2, g |-> 1])
        \/ Len(hist) = 4 /\ Do([op |-> "open", h |-> 3])
        \/ Len(hist) = 5 /\ Do([op |-> "str", h |-> 4])
        \/ Len(hist) = 6 /\ Do([op |-> "all"]) /\ PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist']))
Spec == Init /\ [][Next]_vars
Wf == WellFormed(st)
Bounds == {<<<<>>, <<>>>>, <<<<>>, MaxSize>>, <<<<1>>, <<1>>>>, <<M1, MaxSize>>, <<<<5>>, M1>>} \cup {st[j] : j \in 1..2}
Laws == Len(hist) = 3 => \A x, y \in Bounds : /\ Sum(x, y) = Sum(y, x)
                             /\ Sum(x, <<<<>>, <<>>>>) = x
                             /\ (Sum(x, y)[2] = MaxSize <=> BigLeq(MaxSize, BigAdd(x[2], y[2])))
Assoc == Len(hist) = 3 => LET B == {st[j] : j \in 1..3} IN \A x, y, z \in B : Sum(Sum(x, y), z) = Sum(x, Sum(y, z))
==============================================================================
