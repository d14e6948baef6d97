----------------------------- MODULE BitArrayMC -----------------------------
(* Every edit of every slice of every short bit array, and one read after it. *)
EXTENDS BitArray, Json
CONSTANTS N,        \* longest array
          SCH       \* layouts of the bits inside their backing bytes (driver seeds)
VARIABLES sch, st, hist
vars == <<sch, st, hist>>

Pat(n) == [j \in 1..n |-> IF j % 3 = 1 \/ j % 7 = 4 THEN 1 ELSE 0]
Alt(n) == [j \in 1..n |-> IF j % 3 = 1 \/ j % 5 = 0 THEN 0 ELSE 1]
Ones(n) == [j \in 1..n |-> 1]
Cur == st[1].b
n0 == Len(Cur)

Vals(w) == {V("bits", Alt(k), <<>>) : k \in {0, 1, 7, 8, 9, w} \cap 0..17}
           \cup {V("bytes", <<165>>, <<>>), V("bytes", <<>>, <<>>), V("bytes", <<255, 129>>, <<>>)}
           \cup (IF w > 0 THEN {IntV(1), IntFromBits(Ones(w)), BigV(0, BytesOf(Zeros(w) \o <<1>>)), IntV(-1)} ELSE {})
Edits ==
    LET R == {r \in (0..n0) \X (0..n0) : r[1] <= r[2]} IN
    UNION { {[op |-> "set", h |-> 1, lo |-> r[1], hi |-> r[2], v |-> v, via |-> (r[1] + r[2]) % 4] : v \in Vals(r[2] - r[1])} : r \in R }
    \cup {[op |-> "del", h |-> 1, lo |-> r[1], hi |-> r[2]] : r \in R}
    \cup {[op |-> "ins", h |-> 1, lo |-> o, hi |-> o, v |-> v, via |-> o % 4] : o \in 0..n0, v \in Vals(8)}
    \cup {[op |-> "zfill", h |-> 1, n |-> m] : m \in 0..n0 + 9}
    \cup {[op |-> "ext", h |-> 1, v |-> V("bits", Alt(k), <<>>), via |-> k % 2] : k \in {0, 1, 7, 8, 9}}
    \cup {[op |-> "slice", h |-> 1, lo |-> r[1], hi |-> r[2], g |-> 2, omit |-> 0] : r \in R}
    \cup {[op |-> "byte", h |-> 1, lo |-> o] : o \in 0..n0 - 1}
    \cup {[op |-> x, h |-> 1] : x \in {"bytes", "barr", "iter", "str", "len"}}
    \cup {[op |-> "add", h |-> 1, o |-> 1, g |-> 3]}

Do(e) == LET r == Step(sch, st, e) IN
         /\ st' = r.st
         /\ hist' = Append(hist, e @@ [res |-> r.res])
         /\ sch' = sch
Init == /\ sch \in SCH /\ st = Init0(0) /\ hist = <<>>
New == /\ hist = <<>>
       /\ \E n \in 0..N, m \in {0, 1} : Do([op |-> "new", h |-> 1, mut |-> m, v |-> V("bits", Pat(n), <<>>)])
Edit1 == /\ Len(hist) = 1
         /\ \E e \in Edits : /\ st[1].mut \/ e.op \in {"slice", "byte", "bytes", "barr", "iter", "str", "len"}
                             /\ Do(e)
Look == /\ Len(hist) = 2
        /\ Do([op |-> "same", h |-> 1])
        /\ PrintT("@@BEH " \o ToJson([sch |-> sch, ev |-> hist']))
Next == New \/ Edit1 \/ Look
Spec == Init /\ [][Next]_vars

(* The laws the edits obey, stated on positions rather than by construction. *)
Laws ==
    Len(hist) < 2 \/
    LET e == hist[2]  a == hist[1].v.i  b == st[1].b  n == Len(a) IN
    \/ hist[2].res = Err /\ b = a
    \/ e.op \in {"slice", "byte", "bytes", "barr", "iter", "str", "len", "add"} /\ b = a
    \/ e.op = "set" /\ LET x == ValBits(e.v, e.hi - e.lo).b IN
            /\ Len(b) = n - (e.hi - e.lo) + Len(x)
            /\ \A j \in 1..Len(b) : b[j] = IF j <= e.lo THEN a[j] ELSE IF j <= e.lo + Len(x) THEN x[j - e.lo]
                                           ELSE a[j - Len(x) + (e.hi - e.lo)]
    \/ e.op = "del" /\ Len(b) = n - (e.hi - e.lo)
                    /\ \A j \in 1..Len(b) : b[j] = IF j <= e.lo THEN a[j] ELSE a[j + (e.hi - e.lo)]
    \/ e.op = "ins" /\ LET x == ValBits(e.v, 8).b IN
            /\ SubSeq(b, 1, e.lo) = SubSeq(a, 1, e.lo)
            /\ SubSeq(b, e.lo + 1, e.lo + Len(x)) = x
            /\ SubSeq(b, e.lo + Len(x) + 1, Len(b)) = SubSeq(a, e.lo + 1, n)
    \/ e.op = "zfill" /\ Len(b) = Max2(n, e.n) /\ \A j \in 1..Len(b) : b[j] = BitAt(a, j)
    \/ e.op = "ext" /\ SubSeq(b, 1, n) = a /\ SubSeq(b, n + 1, Len(b)) = e.v.i
(* converting to bytes and back loses nothing *)
BytesFaithful == \A h \in 1..3 : LET b == st[h].b IN SubSeq(BitsOf(BytesOf(b)), 1, Len(b)) = b
==============================================================================
