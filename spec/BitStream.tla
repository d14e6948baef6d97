------------------------------ MODULE BitStream ------------------------------
(* The bit stream under the bit fields of a struct: bits in order, each number  *)
(* least significant bit first, taken modulo its width; nothing past the end.   *)
EXTENDS Vals
Init0(sch) == [b |-> <<>>, p |-> 0]
(* an integer modulo 2^n as n bits, two's complement for negative numbers *)
ModBits(v, n) == LET k == CeilDiv(n, 8) + Len(Mag(v)) + 1
                     b == BitsOf(IntBytes(v, k, FALSE)) IN [j \in 1..n |-> b[j]]
Step(sch, st, e) ==
    CASE e.op = "new"  -> [st |-> [b |-> BitsOf(e.v.i), p |-> 0], res |-> OK]
      [] e.op = "zero" -> [st |-> [b |-> [j \in 1..8 * e.n |-> 0], p |-> 0], res |-> OK]
      [] e.op = "write" -> IF st.p + e.n > Len(st.b) THEN [st |-> st, res |-> Err]
                           ELSE LET x == ModBits(e.v, e.n) IN
                                [st |-> [p |-> st.p + e.n,
                                         b |-> [j \in 1..Len(st.b) |-> IF j > st.p /\ j <= st.p + e.n
                                                                       THEN Max2(st.b[j], x[j - st.p]) ELSE st.b[j]]],
                                 res |-> OK]
      [] e.op = "read" -> IF st.p + e.n > Len(st.b) THEN [st |-> st, res |-> Err]
                          ELSE [st |-> [st EXCEPT !.p = @ + e.n], res |-> IntFromBits(SubSeq(st.b, st.p + 1, st.p + e.n))]
      [] e.op = "seek" -> [st |-> [st EXCEPT !.p = e.n], res |-> OK]
      [] e.op = "get"  -> [st |-> st, res |-> Bytes(BytesOf(st.b))]
==============================================================================
