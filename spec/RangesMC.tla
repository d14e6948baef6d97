------------------------------- MODULE RangesMC -------------------------------
(* Every short list of ranges, open and empty ones included, and every bit slice of every short byte reference. *)
EXTENDS Ranges, Json
CONSTANTS P,      \* largest position in a list
          L,      \* longest list
          B       \* number of bytes references may name
VARIABLES st, hist, q
vars == <<st, hist, q>>

Rs == {<<a, b>> : a, b \in 0..P} \cap {r \in (0..P) \X (0..P) : r[1] <= r[2]}
OpenRs == {<<a, 0-1>> : a \in 0..P}
Lists == UNION {[1..n -> Rs \cup OpenRs] : n \in 0..L}

Ix(n) == [k |-> "ix", n |-> n]
Sl(a, b) == [k |-> "sl", lo |-> a, hi |-> b]
Atoms == {Ix(n) : n \in 0..B-1} \cup {Sl(8*a, 8*b) : a, b \in 0..B} \cup {Sl(8, 0-1), Sl(0-1, 16), Sl(4, 12)}
Parents == Atoms \cup {[k |-> "lst", l |-> <<a, b>>] : a, b \in Atoms}
St(a, b, s) == [k |-> "sl", lo |-> a, hi |-> b, st |-> s]
Odd(n) == [k |-> "odd", n |-> n]
Steps == {1, 2, 3, 0, 0-1}
(* slices with a step and what no position can be, as bytes and as bits *)
Odds == {St(8*a, 8*b, s) : a \in {0, 1}, b \in {1, 3}, s \in Steps} \cup {Odd(n) : n \in 0..6}
        \cup UNION {{[k |-> "bits", p |-> Sl(0, 16), key |-> y] : y \in {Odd(n) : n \in 0..6} \cup {St(a, b, s) : a \in {0-1, 2}, b \in {0-1, 9, 16}, s \in Steps}}}
OddRefs == Odds \cup {[k |-> "lst", l |-> <<Ix(0), o>>] : o \in {x \in Odds : x.k # "bits"}}
                \cup {[k |-> "add", a |-> Ix(0), b |-> o] : o \in {x \in Odds : x.k # "odd"}}
Keys(n) == {Ix(j) : j \in {0, 1, 7, 8, 9, n - 1, n, n + 1} \cap Nat} \cup {Sl(a, b) : a \in {0-1, 0, 3, 8, 9, n} \cap -1..n, b \in {0-1, 0, 1, 8, 11, 16, n, n + 1} \cap -1..n+1}
LenOf(p) == LET x == Resolve(p) IN IF ~x.ok THEN 0 ELSE IF AnyOpen(x.r) THEN 20 ELSE TotalLen(x.r)
Refs == UNION {{[k |-> "bits", p |-> p, key |-> key] : key \in Keys(LenOf(p))} : p \in Parents}

Queries == << [op |-> "overlaps"], [op |-> "open"], [op |-> "length"], [op |-> "end"], [op |-> "reach", n |-> 1],
              [op |-> "reach", n |-> 2], [op |-> "reach", n |-> 4], [op |-> "sorted"], [op |-> "close", n |-> 2 * P] >>
Do(e) == LET r == Step(0, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Init == st = <<>> /\ hist = <<>> /\ q = 0
Export == PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist']))
Make == /\ q = 0 /\ q' = 1
        /\ \E l \in Lists : Do([op |-> "mk", l |-> l])
Name == /\ q = 0 /\ q' = Len(Queries) + 1
        /\ \E e \in Refs \cup OddRefs, via \in {0} : Do([op |-> "ref", e |-> e, via |-> via])
        /\ Export
Ask == /\ q \in 1..Len(Queries) /\ q' = q + 1 /\ Do(Queries[q])
       /\ (q' = Len(Queries) + 1 => Export)
Next == Make \/ Name \/ Ask
Spec == Init /\ [][Next]_vars

(* The same facts, stated on sets of positions. *)
Top == 4 * P + 8 * B + 40
Pos(r) == {p \in 0..Top : r[1] <= p /\ p < Hi(r)}
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>>
           ELSE LET r == Head(l)  n == IF Open(r) THEN Top - r[1] ELSE RLen(r) IN
                [j \in 1..n |-> r[1] + j - 1] \o (IF Open(r) THEN <<>> ELSE Flat(Tail(l)))
OverlapLaw == HasOverlap(st) <=> \E i, j \in 1..Len(st) : i # j /\ Pos(st[i]) \cap Pos(st[j]) # {}
LengthLaw == ~AnyOpen(st) /\ ~HasOverlap(st) => TotalLen(st) = Cardinality(UNION {Pos(st[j]) : j \in 1..Len(st)})
ReachLaw == \A n \in 1..4 : LET f == Flat(st) IN
            Reach(NonEmpty(st), n) = IF Len(f) < n THEN 0-1 ELSE f[n] + 1
EndLaw == ~AnyOpen(st) => \A j \in 1..Len(st) : Pos(st[j]) \subseteq 0..MaxStop(st) - 1
Bare(k) == IF k.k = "sl" THEN Sl(k.lo, k.hi) ELSE k
StepLaw == (hist # <<>> /\ hist[1].op = "ref" /\ hist[1].e \in Odds) =>
    LET e == hist[1].e  key == IF e.k = "bits" THEN e.key ELSE e IN
    IF key.k = "odd" THEN ~Resolve(e).ok
    ELSE Resolve(e) = IF key.st = 1 THEN Resolve(IF e.k = "bits" THEN [e EXCEPT !.key = Bare(key)] ELSE Bare(e)) ELSE NoR
NameLaw == (hist # <<>> /\ hist[1].op = "ref" /\ hist[1].e \in Refs) =>
    LET e == hist[1].e  p == Resolve(e.p)  x == Resolve(e) IN
    IF ~p.ok THEN ~x.ok
    ELSE LET f == Flat(p.r)
             lo == IF e.key.k = "ix" THEN e.key.n ELSE Max2(e.key.lo, 0)
             hi == IF e.key.k = "ix" THEN e.key.n + 1 ELSE IF e.key.hi < 0 THEN Len(f) ELSE e.key.hi IN
         /\ x.ok <=> (lo <= hi \/ e.key.hi < 0) /\ hi <= Len(f) /\ lo <= Len(f)
         /\ x.ok => SubSeq(Flat(x.r), 1, hi - lo) = SubSeq(f, lo + 1, hi)
==============================================================================
