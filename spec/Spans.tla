--------------------------------- MODULE Spans ---------------------------------
(* Position references and range lists. All positions are in bits; a range is  *)
(* <<lo, hi>>, hi = -1 when open ended. A position expression is               *)
(*   [k |-> "ix", n]            byte n                                         *)
(*   [k |-> "sl", lo, hi]       a byte slice; bit offsets, -1 = not given      *)
(*   [k |-> "lst", l]           several, in order                              *)
(*   [k |-> "add", a, b]        sum of two references                          *)
(*   [k |-> "bits", p, key]     bits of p; key is ix/sl/lst counted in bits    *)
(*   [k |-> "odd", n]           what selects nothing: a string, a float, ...   *)
(* A slice may have a step st; only 1 is a range.                              *)
EXTENDS Vals

Open(r) == r[2] < 0
Empty(r) == r[2] = r[1]
RLen(r) == r[2] - r[1]
NonEmpty(l) == SelectSeq(l, LAMBDA r : ~Empty(r))
BadStep(e) == "st" \in DOMAIN e /\ e.st # 1
NoR == [ok |-> FALSE, r |-> <<>>]
R(l) == [ok |-> TRUE, r |-> l]
Join(xs) == IF \E j \in 1..Len(xs) : ~xs[j].ok THEN NoR ELSE R(Concat([j \in 1..Len(xs) |-> xs[j].r]))

(* the bits from..to (to = -1: all the rest) of the concatenation of the ranges l *)
RECURSIVE Cut(_, _, _)
Cut(l, from, to) ==
    IF l = <<>> THEN IF from > 0 \/ to > 0 THEN NoR ELSE R(<<>>)
    ELSE LET r == Head(l) IN
         IF Open(r) THEN R(<< <<r[1] + from, IF to < 0 THEN 0-1 ELSE r[1] + to>> >>)
         ELSE LET n == RLen(r)
                  a == Min2(from, n)
                  b == IF to < 0 THEN n ELSE Min2(to, n)
                  rest == Cut(Tail(l), from - a, IF to < 0 THEN 0-1 ELSE to - b)
              IN IF ~rest.ok THEN NoR
                 ELSE R((IF a < b THEN << <<r[1] + a, r[1] + b>> >> ELSE <<>>) \o rest.r)

RECURSIVE CutKey(_, _)
CutKey(l, key) ==
    CASE key.k = "odd" -> NoR
      [] key.k = "ix"  -> IF key.n < 0 THEN NoR ELSE Cut(l, key.n, key.n + 1)
      [] key.k = "sl"  -> LET lo == IF key.lo = -1 THEN 0 ELSE key.lo IN
                          IF BadStep(key) \/ lo < 0 \/ key.hi < -1 \/ (key.hi >= 0 /\ lo > key.hi) THEN NoR ELSE Cut(l, lo, key.hi)
      [] key.k = "lst" -> Join([j \in 1..Len(key.l) |-> CutKey(l, key.l[j])])

RECURSIVE Resolve(_)
Resolve(e) ==
    CASE e.k = "odd"  -> NoR
      [] e.k = "ix"   -> IF e.n < 0 THEN NoR ELSE R(<< <<8 * e.n, 8 * e.n + 8>> >>)
      [] e.k = "sl"   -> LET lo == IF e.lo = -1 THEN 0 ELSE e.lo IN
                         IF BadStep(e) \/ lo < 0 \/ e.hi < -1 \/ (e.hi >= 0 /\ lo > e.hi) THEN NoR ELSE R(<< <<lo, e.hi>> >>)
      [] e.k = "lst"  -> Join([j \in 1..Len(e.l) |-> Resolve(e.l[j])])
      [] e.k = "add"  -> Join(<<Resolve(e.a), Resolve(e.b)>>)
      [] e.k = "bits" -> LET p == Resolve(e.p) IN IF ~p.ok THEN NoR ELSE CutKey(p.r, e.key)

------------------------------------------------------------------------------
(* Range arithmetic *)
INF == 1000000000
Hi(r) == IF Open(r) THEN INF ELSE r[2]
Meet(a, b) == Max2(a[1], b[1]) < Min2(Hi(a), Hi(b))
HasOverlap(l) == \E i, j \in 1..Len(l) : i < j /\ ~Empty(l[i]) /\ ~Empty(l[j]) /\ Meet(l[i], l[j])
AnyOpen(l) == \E j \in 1..Len(l) : Open(l[j])
TotalLen(l) == SumSeq([j \in 1..Len(l) |-> RLen(l[j])])
RECURSIVE MaxStop(_)
MaxStop(l) == IF l = <<>> THEN 0 ELSE Max2(Head(l)[2], MaxStop(Tail(l)))
(* where n bits of data end when laid into the ranges in order: -1 if they do not fit *)
RECURSIVE Reach(_, _)
Reach(l, n) == IF l = <<>> THEN 0-1
               ELSE LET r == Head(l) IN IF Open(r) \/ RLen(r) >= n THEN r[1] + n ELSE Reach(Tail(l), n - RLen(r))
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ Hi(a) <= Hi(b))
==============================================================================
