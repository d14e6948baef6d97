------------------------------ MODULE ContextsMC ------------------------------
(* A context, a copy of it or a second one, changes to both, and uses through every chain of classes. *)
EXTENDS Contexts, Json
CONSTANT FULL
VARIABLES st, hist
vars == <<st, hist>>
Do(e) == LET r == Step(0, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Init == st = Init0(0) /\ hist = <<>>
Ds == {<<>>, <<<<2, 3>>>>} \cup (IF FULL THEN {<<<<1, 10>>, <<2, 0>>>>, <<<<3, 1>>>>} ELSE {<<<<1, 10>>, <<3, 0>>>>})
Chains == {<<1>>, <<2>>, <<1, 2>>, <<2, 3>>, <<2, 1>>, <<3, 2>>, <<2, 4>>, <<4, 2, 3>>} \cup (IF FULL THEN {<<1, 3>>, <<3, 1, 2>>, <<4, 3>>, <<2, 2>>} ELSE {})
Change(h) == \/ \E k \in {1, 2} : Do([op |-> "put", h |-> h, k |-> k, n |-> 4])
             \/ Do([op |-> "rem", h |-> h, k |-> 2])
             \/ Do([op |-> "upd", h |-> h, d |-> <<<<2, 1>>, <<3, 10>>>>])
Next == \/ Len(hist) = 0 /\ (Do([op |-> "emp", h |-> 1]) \/ \E w \in 0..1, d \in Ds : Do([op |-> "mk", h |-> 1, w |-> w, d |-> d, via |-> 0]))
        \/ Len(hist) = 1 /\ \/ \E d \in Ds : Do([op |-> "copy", h |-> 2, g |-> 1, d |-> d])
                            \/ Do([op |-> "mk", h |-> 2, w |-> 1, d |-> <<>>, via |-> 1])
        \/ Len(hist) \in 2..3 /\ Change(4 - Len(hist))
        \/ Len(hist) = 4 /\ \E c \in Chains, k \in 1..2, h \in 0..1, how \in (IF FULL THEN 0..2 ELSE {0}) :
                                Do([op |-> "use", h |-> h, chain |-> c, k |-> k, how |-> how, wrap |-> 0, pt |-> 1])
        \/ Len(hist) = 5 /\ Do([op |-> "own"])
        \/ Len(hist) = 6 /\ Do([op |-> "all"]) /\ PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist']))
Spec == Init /\ [][Next]_vars
(* What a context holds is what was put in it: nothing else changes it. *)
Frame == [][\A h \in 1..NH : st'[h] # st[h] => hist'[Len(hist')].op \in {"mk", "emp", "copy", "put", "upd", "rem"} /\ hist'[Len(hist')].h = h]_vars
ReadOnly == [][\A h \in 1..NH : (st[h].w = 0 /\ st'[h] # st[h]) => hist'[Len(hist')].op \in {"mk", "emp", "copy"}]_vars
GivenWins == \A j \in 1..Len(hist) : hist[j].op = "use" /\ hist[j].h # 0 =>
                LET m == st[hist[j].h].m IN m[hist[j].k] # Absent => hist[j].res = Val(m[hist[j].k])
==============================================================================
