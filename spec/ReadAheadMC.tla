----------------------------- MODULE ReadAheadMC -----------------------------
(* Every sequence of reads and mode changes over a short stream. *)
EXTENDS ReadAhead, Json
CONSTANTS N, D
VARIABLES st, hist, got
vars == <<st, hist, got>>
Do(e) == LET r == Step(0, st, e) IN
         /\ st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
         /\ got' = IF e.op = "read" /\ ~st.ahead THEN got \o r.res.i ELSE got
Init == st = Init0(0) /\ hist = <<>> /\ got = <<>>
Next == \/ Len(hist) = 0 /\ \E n \in 0..N : Do([op |-> "new", v |-> Bytes([j \in 1..n |-> 40 + j])])
        \/ Len(hist) \in 1..D /\ (\/ \E n \in 0..3 : Do([op |-> "read", n |-> n])
                                  \/ Do([op |-> "mode", n |-> IF st.ahead THEN 0 ELSE 1]))
        \/ Len(hist) = D + 1 /\ Do([op |-> "left"])
        \/ Len(hist) = D + 2 /\ Do([op |-> "write", v |-> Bytes(<<1, 2>>)])
        \/ Len(hist) = D + 3 /\ Do([op |-> "rest"]) /\ PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist']))
Spec == Init /\ [][Next]_vars
(* nothing lost, duplicated or reordered by looking ahead *)
InOrder == Ordered(st) /\ got = SubSeq(st.u, 1, st.c)
==============================================================================
