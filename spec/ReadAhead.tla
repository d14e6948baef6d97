------------------------------ MODULE ReadAhead ------------------------------
(* Look-ahead over a stream: u its bytes, c consumed, l looked at (c <= l).      *)
EXTENDS Vals
Init0(sch) == [u |-> <<>>, c |-> 0, l |-> 0, ahead |-> FALSE, w |-> <<>>]
Step(sch, st, e) ==
    CASE e.op = "new"   -> [st |-> [u |-> e.v.i, c |-> 0, l |-> 0, ahead |-> FALSE, w |-> <<>>], res |-> OK]
      [] e.op = "mode"  -> [st |-> [st EXCEPT !.ahead = (e.n = 1)], res |-> OK]
      [] e.op = "read"  -> LET from == IF st.ahead THEN st.l ELSE st.c
                               to == Min2(from + e.n, Len(st.u)) IN
                           [st |-> IF st.ahead THEN [st EXCEPT !.l = to] ELSE [st EXCEPT !.c = to, !.l = Max2(@, to)],
                            res |-> Bytes(SubSeq(st.u, from + 1, to))]
      [] e.op = "left"  -> [st |-> st, res |-> IntV(IF st.c = st.l THEN 0 ELSE 1)]
      [] e.op = "rest"  -> [st |-> st, res |-> Bytes(Drop(st.u, st.l))]         \* what the underlying stream still has
      [] e.op = "write" -> IF st.ahead \/ st.c # st.l THEN [st |-> st, res |-> Err]
                           ELSE [st |-> [st EXCEPT !.w = @ \o e.v.i], res |-> Bytes(st.w \o e.v.i)]
Ordered(st) == st.c <= st.l /\ st.l <= Len(st.u)
==============================================================================
