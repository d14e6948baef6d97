------------------------------- MODULE Contexts -------------------------------
(* Contexts: what a caller hands to the functions and types used while reading, *)
(* writing and printing. NH contexts, each a map from NK keys to values.        *)
(* Values are 0..9, and 10 for None; a key without value is Absent.             *)
(* A use reads, writes or prints an object of a class whose innermost struct     *)
(* looks at a key: it sees the value of the context given, or else that of the   *)
(* context declared by the classes around it, the outermost first.              *)
EXTENDS Vals
NH == 4      NK == 4
Absent == 0-1
NoCtx == [j \in 1..NK |-> Absent]
Ctx(w, m) == [w |-> w, m |-> m]
Init0(sch) == [h \in 1..NH |-> Ctx(1, NoCtx)]
RECURSIVE With(_, _)
With(m, d) == IF d = <<>> THEN m ELSE With([m EXCEPT ![d[1][1]] = d[1][2]], Tail(d))
(* contexts declared by classes; each use is through a chain of classes, from the outside in *)
Own == <<NoCtx, With(NoCtx, <<<<1, 5>>, <<2, 6>>>>), With(NoCtx, <<<<2, 7>>, <<3, 8>>>>), With(NoCtx, <<<<2, 10>>>>)>>
Seen(m, chain, k) == IF m[k] # Absent THEN m[k]
                     ELSE LET s == {j \in 1..Len(chain) : Own[chain[j]][k] # Absent} IN
                          IF s = {} THEN Absent ELSE Own[chain[CHOOSE j \in s : \A g \in s : j <= g]][k]
Val(n) == IF n = 10 THEN None ELSE IF n = Absent THEN Str(<<>>) ELSE IntV(n)
Map(m) == List([k \in 1..NK |-> Val(m[k])])
R(st, r) == [st |-> st, res |-> r]
Step(sch, st, e) ==
    CASE e.op = "mk"   -> R([st EXCEPT ![e.h] = Ctx(e.w, With(NoCtx, e.d))], OK)
      [] e.op = "emp"  -> R([st EXCEPT ![e.h] = Ctx(0, NoCtx)], OK)
      [] e.op = "copy" -> R([st EXCEPT ![e.h] = Ctx(1, With(st[e.g].m, e.d))], OK)
      [] e.op = "get"  -> R(st, IF st[e.h].m[e.k] = Absent THEN Val(e.n) ELSE Val(st[e.h].m[e.k]))
      [] e.op = "put"  -> IF st[e.h].w = 0 THEN R(st, Err) ELSE R([st EXCEPT ![e.h].m[e.k] = e.n], OK)
      [] e.op = "upd"  -> IF st[e.h].w = 0 THEN R(st, Err) ELSE R([st EXCEPT ![e.h].m = With(@, e.d)], OK)
      [] e.op = "rem"  -> IF st[e.h].w = 0 \/ st[e.h].m[e.k] = Absent THEN R(st, Err) ELSE R([st EXCEPT ![e.h].m[e.k] = Absent], OK)
      [] e.op = "dict" -> R(st, Map(st[e.h].m))
      [] e.op = "all"  -> R(st, List([h \in 1..NH |-> Map(st[h].m)]))
      [] e.op = "use"  -> R(st, Val(Seen(IF e.h = 0 THEN NoCtx ELSE st[e.h].m, e.chain, e.k)))
      [] e.op = "own"  -> R(st, List([c \in 1..Len(Own) |-> Map(Own[c])]))
==============================================================================
