-------------------------------- MODULE RefsMC --------------------------------
(* Every way three references can be defined in terms of one another, evaluated in every order in one context. *)
EXTENDS Refs, Json
CONSTANTS NL, NE,     \* links, evaluations
          FULL        \* every pair of links under max, or one per link
VARIABLES sch, st, hist
vars == <<sch, st, hist>>
Lk(j) == [k |-> "link", j |-> j]
(* definitions of link i; identities are 100 * i + position *)
Defs(i) ==
    LET U(p) == 100 * i + p IN
    {[k |-> "c", n |-> i, u |-> U(1)]}
    \cup {[k |-> "fn", f |-> i, n |-> 2, args |-> <<Lk(j)>>, u |-> U(1)] : j \in 1..NL}
    \cup {[k |-> "op", o |-> "sub", args |-> <<Lk(j), [k |-> "fn", f |-> i, n |-> 7, args |-> <<>>, u |-> U(2)]>>, u |-> U(1)] : j \in 1..NL}
    \cup {[k |-> "op", o |-> "add", args |-> <<[k |-> "fn", f |-> i, n |-> 5, args |-> <<>>, u |-> U(2)], Lk(j)>>, u |-> U(1)] : j \in 1..NL}
    \cup {[k |-> "max", args |-> <<Lk(p[1]), Lk(p[2])>>, u |-> U(1)] : p \in {q \in (1..NL) \X (1..NL) : FULL \/ q[2] = (q[1] % NL) + 1}}
    \cup {[k |-> "op", o |-> "add", args |-> <<[k |-> "fn", f |-> i, n |-> 1, args |-> <<>>, u |-> U(2)],
                                             [k |-> "bad", f |-> NF, args |-> <<>>, u |-> U(3)]>>, u |-> U(1)]}
Do(e) == LET r == Step(sch, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Init == /\ sch \in {s \in [1..NL -> UNION {Defs(i) : i \in 1..NL}] : \A i \in 1..NL : s[i] \in Defs(i)}
        /\ st = Init0(0) /\ hist = <<>>
Eval == /\ Len(hist) < NE /\ sch' = sch
        /\ \E j \in 1..NL : Do([op |-> "eval", c |-> 1, j |-> j])
Count == /\ Len(hist) = NE /\ sch' = sch
         /\ Do([op |-> "calls"])
         /\ PrintT("@@BEH " \o ToJson([sch |-> sch, ev |-> hist']))
Next == Eval \/ Count
Spec == Init /\ [][Next]_vars

(* What a reference denotes, without contexts: a value, a cycle, or an error, evaluating left to right. *)
RECURSIVE Den(_, _)
Den(x, path) ==
    IF x.k = "link" THEN IF InSeq(x.j, path) THEN [t |-> "cycle", v |-> 0] ELSE Den(sch[x.j], Append(path, x.j))
    ELSE IF x.k = "c" THEN [t |-> "val", v |-> x.n]
    ELSE LET a == [j \in 1..Len(x.args) |-> Den(x.args[j], path)] IN
         IF \E j \in 1..Len(a) : a[j].t # "val"
         THEN a[CHOOSE j \in 1..Len(a) : a[j].t # "val" /\ \A h \in 1..j-1 : a[h].t = "val"]
         ELSE IF x.k = "bad" THEN [t |-> "err", v |-> 0]
         ELSE [t |-> "val", v |-> IF x.k = "fn" THEN x.n + SumSeq([j \in 1..Len(a) |-> a[j].v])
                                  ELSE IF x.k = "max" THEN Max2(a[1].v, a[2].v)
                                  ELSE IF x.o = "sub" THEN a[1].v - a[2].v ELSE a[1].v + a[2].v]
(* The context changes nothing but the number of calls; a failure leaves it as good as new. *)
Transparent == \A j \in 1..Len(hist) : hist[j].op = "eval" =>
    LET d == Den(Lk(hist[j].j), <<>>) IN
    IF d.t = "val" THEN hist[j].res = IntV(d.v) ELSE IF d.t = "cycle" THEN hist[j].res.t = "cycle" ELSE hist[j].res = Err
OnceEach == \A f \in 1..NL : st.calls[f] <= 1
CycleNamed == \A j \in 1..Len(hist) : hist[j].res.t = "cycle" =>
    LET c == hist[j].res.i IN
    \A p \in 1..Len(c) : LET nx == IF p = Len(c) THEN c[1] ELSE c[p + 1] IN
        \E a \in 1..Len(sch[c[p]].args) : sch[c[p]].args[a] = Lk(nx)
==============================================================================
