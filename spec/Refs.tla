--------------------------------- MODULE Refs ---------------------------------
(* Evaluation of references. The subject sch is a sequence of named references *)
(* ("links"), each defined by an expression; expressions may use any link, so   *)
(* cycles are possible. Every expression node has its own identity u: a context *)
(* remembers the value of each, and evaluates none twice.                       *)
(*   [k |-> "c", n]  [k |-> "attr", a]  [k |-> "link", j]                       *)
(*   [k |-> "fn", f, n, args]   user function f: n + the sum of its arguments    *)
(*   [k |-> "bad", f, args]     user function that raises                       *)
(*   [k |-> "op", o, args] two arguments   [k |-> "neg"/"cast"/"div8", args]      *)
(*   [k |-> "quo", args] the half-units in the (true) quotient of two arguments   *)
(*   [k |-> "min"/"max", args]  [k |-> "len", n]  [k |-> "assign", a, args]      *)
(* State: ctx |-> (identity |-> value or NotYet), attributes, calls per function. *)
EXTENDS Vals

NA == 3      NF == 6      NC == 3
NotYet == "?"
Init0(sch) == [cache |-> [c \in 1..NC |-> <<>>], attr |-> [a \in 1..NA |-> 10 * a], calls |-> [f \in 1..NF |-> 0]]

FloorDiv(a, b) == IF b < 0 THEN (0 - a) \div (0 - b) ELSE a \div b
B01(x) == IF x THEN 1 ELSE 0
Apply(o, a, b) ==
    CASE o = "add" -> a + b  [] o = "sub" -> a - b  [] o = "mul" -> a * b  [] o = "floordiv" -> FloorDiv(a, b)
      [] o = "le" -> B01(a <= b)  [] o = "lt" -> B01(a < b)  [] o = "ge" -> B01(a >= b)  [] o = "gt" -> B01(a > b)
      [] o = "eq" -> B01(a = b)  [] o = "ne" -> B01(a # b)
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinSeq(Tail(s)))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxSeq(Tail(s)))

(* An evaluation: t = "val" (v), "cycle" (cyc: its links) or "err"; m: cache, attributes and calls after it. *)
Res(t, v, cyc, m) == [t |-> t, v |-> v, cyc |-> cyc, m |-> m]
HasKey(cache, u) == \E j \in 1..Len(cache) : cache[j][1] = u
Look(cache, u) == cache[CHOOSE j \in 1..Len(cache) : cache[j][1] = u][2]
Keep(r, u) == IF r.t = "val" THEN [r EXCEPT !.m.cache = Append(@, <<u, r.v>>)] ELSE r
RECURSIVE From(_, _)
From(stack, j) == IF Head(stack) = j THEN stack ELSE From(Tail(stack), j)

RECURSIVE Ev(_, _, _, _)
RECURSIVE EvArgs(_, _, _, _, _)
(* arguments left to right; r.v is the sequence of their values *)
EvArgs(sch, args, acc, stack, m) ==
    IF args = <<>> THEN Res("val", acc, <<>>, m)
    ELSE LET r == Ev(sch, Head(args), stack, m) IN
         IF r.t # "val" THEN r ELSE EvArgs(sch, Tail(args), Append(acc, r.v), stack, r.m)
Called(m, f) == [m EXCEPT !.calls[f] = @ + 1]
Ev(sch, x, stack, m) ==
    IF x.k = "link" THEN
        IF InSeq(x.j, stack) THEN Res("cycle", 0, From(stack, x.j), m)
        ELSE IF HasKey(m.cache, 0 - x.j) THEN Res("val", Look(m.cache, 0 - x.j), <<>>, m)
        ELSE Keep(Ev(sch, sch[x.j], Append(stack, x.j), m), 0 - x.j)
    ELSE IF HasKey(m.cache, x.u) THEN Res("val", Look(m.cache, x.u), <<>>, m)
    ELSE LET r == IF "args" \in DOMAIN x THEN EvArgs(sch, x.args, <<>>, stack, m) ELSE Res("val", <<>>, <<>>, m) IN
         IF r.t # "val" THEN r
         ELSE LET a == r.v IN
         Keep(CASE x.k = "c"    -> Res("val", x.n, <<>>, r.m)
                [] x.k = "len"  -> Res("val", x.n, <<>>, r.m)
                [] x.k = "attr" -> Res("val", r.m.attr[x.a], <<>>, r.m)
                [] x.k = "fn"   -> Res("val", x.n + SumSeq(a), <<>>, Called(r.m, x.f))
                [] x.k = "bad"  -> Res("err", 0, <<>>, Called(r.m, x.f))
                [] x.k = "op"   -> IF x.o = "floordiv" /\ a[2] = 0 THEN Res("err", 0, <<>>, r.m)
                                   ELSE Res("val", Apply(x.o, a[1], a[2]), <<>>, r.m)
                [] x.k = "quo"  -> IF a[2] = 0 THEN Res("err", 0, <<>>, r.m)
                                   ELSE Res("val", FloorDiv(2 * a[1], a[2]), <<>>, r.m)
                [] x.k = "neg"  -> Res("val", 0 - a[1], <<>>, r.m)
                [] x.k = "cast" -> Res("val", a[1], <<>>, r.m)
                [] x.k = "div8" -> Res("val", (8 * a[1]) \div x.n, <<>>, r.m)
                [] x.k = "min"  -> Res("val", MinSeq(a), <<>>, r.m)
                [] x.k = "max"  -> Res("val", MaxSeq(a), <<>>, r.m)
                [] x.k = "assign" -> Res("val", a[1], <<>>, [r.m EXCEPT !.attr[x.a] = a[1]]), x.u)

(* Which operands an operator accepts: numbers ("n"), numeric references ("N"), and others ("R" reference, "o" not); *)
(* at least one is a reference.                                                                                       *)
(* One numeric reference and one that is not: left open.                                                              *)
Combines(a, b) == LET s == {a, b} IN IF s = {"N", "R"} THEN AnyV ELSE IF s = {"N"} \/ s = {"N", "n"} THEN OK ELSE Err

Step(sch, st, e) ==
    CASE e.op = "eval" ->
            LET m == [cache |-> st.cache[e.c], attr |-> st.attr, calls |-> st.calls]
                r == Ev(sch, [k |-> "link", j |-> e.j], <<>>, m)
            IN [st |-> [cache |-> [st.cache EXCEPT ![e.c] = r.m.cache], attr |-> r.m.attr, calls |-> r.m.calls],
                res |-> IF r.t = "val" THEN IntV(r.v) ELSE IF r.t = "cycle" THEN V("cycle", r.cyc, <<>>) ELSE Err]
      [] e.op = "calls" -> [st |-> st, res |-> V("calls", st.calls, <<>>)]
      [] e.op = "attrs" -> [st |-> st, res |-> List([a \in 1..NA |-> IntV(st.attr[a])])]
      [] e.op = "combine" -> [st |-> st, res |-> Combines(e.x, e.y)]
      [] e.op = "set"   -> [st |-> [st EXCEPT !.attr[e.a] = e.n], res |-> OK]
==============================================================================
