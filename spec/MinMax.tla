-------------------------------- MODULE MinMax --------------------------------
(* Size bounds. A bound is <<min, max>> of natural numbers (base-256 digits).   *)
EXTENDS Vals
NS == 4
(* a number as it is given: a value of type int of any sign and size *)
LeqInt(a, b) == IF IsNeg(a) THEN (~IsNeg(b) \/ BigLeq(Mag(b), Mag(a)))
                ELSE ~IsNeg(b) /\ BigLeq(Mag(a), Mag(b))
Clip(v) == IF IsNeg(v) THEN <<>> ELSE BigMin(Mag(v), MaxSize)
Bound(a, b) == <<Clip(a), Clip(b)>>
BigI(ds) == BigV(0, ds)
BoundV(x) == List(<<BigI(x[1]), BigI(x[2])>>)
Sum(x, y) == <<BigMin(BigAdd(x[1], y[1]), MaxSize), BigMin(BigAdd(x[2], y[2]), MaxSize)>>
Init0(sch) == [j \in 1..NS |-> <<<<>>, <<>>>>]
Set(st, j, x) == [st |-> [st EXCEPT ![j] = x], res |-> BoundV(x)]
Top == BigI(MaxSize)
Step(sch, st, e) ==
    CASE e.op = "pair"  -> IF LeqInt(e.a, e.b) THEN Set(st, e.h, Bound(e.a, e.b)) ELSE [st |-> st, res |-> Err]
      [] e.op = "min"   -> IF LeqInt(e.a, Top) THEN Set(st, e.h, Bound(e.a, Top)) ELSE [st |-> st, res |-> Err]
      [] e.op = "copy"  -> Set(st, e.h, st[e.g])
      [] e.op = "add"   -> Set(st, e.h, Sum(st[e.f], st[e.g]))
      [] e.op = "const" -> Set(st, e.h, IF e.n = 0 THEN <<<<>>, <<>>>> ELSE <<<<>>, MaxSize>>)
      [] e.op = "open"  -> [st |-> st, res |-> IntV(IF st[e.h][2] = MaxSize THEN 1 ELSE 0)]
      [] e.op = "eq"    -> [st |-> st, res |-> IntV(IF st[e.h] = st[e.g] THEN 1 ELSE 0)]
      [] e.op = "all"   -> [st |-> st, res |-> List([j \in 1..NS |-> BoundV(st[j])])]
      [] e.op = "str"   -> [st |-> st, res |-> List(<<BigI(st[e.h][1]), IF st[e.h][2] = MaxSize THEN None ELSE BigI(st[e.h][2])>>)]
WellFormed(st) == \A j \in 1..NS : BigLeq(st[j][1], st[j][2]) /\ BigLeq(st[j][2], MaxSize)
==============================================================================
