----------------------------- MODULE BitStreamMC -----------------------------
(* Every way to divide a few bytes into consecutive numbers, written, then read back with the same or other widths. *)
EXTENDS BitStream, Json
CONSTANTS NB, WS, D       \* bytes, widths, numbers
VARIABLES st, hist, ph
vars == <<st, hist, ph>>
Do(e) == LET r == Step(0, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Init == st = Init0(0) /\ hist = <<>> /\ ph = 0
Val(n, k) == CASE k = 0 -> BigV(0, BytesOf([j \in 1..n |-> IF j % 3 = 1 \/ j = n THEN 1 ELSE 0]))
               [] k = 1 -> IntV(-1)
               [] k = 2 -> BigV(0, BytesOf([j \in 1..n + 3 |-> 1]))
Next == \/ ph = 0 /\ Do([op |-> "zero", n |-> NB]) /\ ph' = 1
        \/ ph \in 1..D /\ \E w \in WS : Do([op |-> "write", n |-> w, v |-> Val(w, (ph + w) % 3)]) /\ ph' = ph + 1
        \/ ph = D + 1 /\ Do([op |-> "get"]) /\ ph' = ph + 1
        \/ ph = D + 2 /\ Do([op |-> "seek", n |-> 0]) /\ ph' = ph + 1
        \/ ph \in D + 3 .. 2 * D + 2 /\ Do([op |-> "read", n |-> hist[1 + ph - D - 2].n]) /\ ph' = ph + 1
           /\ (ph' = 2 * D + 3 => PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist'])))
Spec == Init /\ [][Next]_vars
(* every number reads back as it was written, modulo its width, and a refused one changes nothing *)
Back == ph = 2 * D + 3 =>
    \A j \in 1..D : LET w == hist[1 + j]  r == hist[D + 3 + j] IN
        IF w.res = OK THEN r.res = IntFromBits(ModBits(w.v, w.n)) ELSE TRUE
Whole == st.p <= Len(st.b)
==============================================================================
