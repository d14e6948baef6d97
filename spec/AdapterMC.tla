------------------------------ MODULE AdapterMC ------------------------------
(* Small buffer classes, of static size and not, whole bytes and not, used as struct types: every order   *)
(* of a few operations on the streams, the objects and structs having them.                              *)
EXTENDS Adapter, Json
CONSTANTS Depth, All
VARIABLES sch, st, hist, pc
vars == <<sch, st, hist, pc>>

N(n) == [k |-> "c", n |-> n]
NoK == [k |-> "no"]
Ix1(n) == [k |-> "ix", n |-> N(n)]
Sl(lo, hi) == [k |-> "sl", lo |-> lo, hi |-> hi]
By(a, b) == Sl(N(a), N(b))
Bits(p, lo, hi) == [k |-> "bits", p |-> p, key |-> [k |-> "sl", lo |-> lo, hi |-> hi]]
Fd(f) == [k |-> "fld", f |-> f, self |-> 0]
Ln(f) == [k |-> "len", f |-> f, self |-> 1]
Op(o, a, b) == [k |-> "op", o |-> o, a |-> a, b |-> b]
U8 == [k |-> "int", sz |-> 8, sg |-> FALSE, be |-> FALSE]
U0 == [k |-> "int", sz |-> 0-1, sg |-> FALSE, be |-> TRUE]
Ba == [k |-> "ba"]
S0 == [k |-> "str", enc |-> "ascii", pad |-> 32, strip |-> <<0>>, just |-> 0]
Lst(el, n) == [k |-> "list", el |-> el, n |-> n, sel |-> NoK]
Buf(c) == [k |-> "buf", c |-> c, sel |-> NoK]
Yes == [k |-> "yes"]
F(n, ty, p) == [n |-> n, ty |-> ty, p |-> p, pu |-> [k |-> "same"], sbp |-> NoK, sau |-> NoK, pif |-> Yes, uif |-> Yes, ua |-> <<>>, d |-> None]
Set(f, e) == [f EXCEPT !.sbp = [k |-> "ref", e |-> e]]
Cls(fs, size) == [fs |-> fs, size |-> size, base |-> <<>>]
Kw(f, v) == [f |-> f, v |-> v]
L(s) == List([j \in 1..Len(s) |-> IntV(s[j])])
One == Cls(<<F(1, U8, Ix1(0))>>, 0-1)
(* a, b: the values of two objects; bad: bytes that are refused although they are enough (or too many) *)
Subjects ==
    {[c |-> <<One>>, a |-> <<Kw(1, IntV(5))>>, b |-> <<Kw(1, IntV(254))>>],
     [c |-> <<Cls(<<F(1, U0, Bits(Ix1(0), 0, 4))>>, 0-1)>>, a |-> <<Kw(1, IntV(5))>>, b |-> <<Kw(1, IntV(15))>>],
     [c |-> <<Cls(<<F(1, U8, Ix1(0)), F(2, U0, Bits(Ix1(1), 1, 3))>>, 0-1)>>, a |-> <<Kw(1, IntV(9)), Kw(2, IntV(2))>>, b |-> <<Kw(1, IntV(0)), Kw(2, IntV(4))>>],
     [c |-> <<Cls(<<F(1, Ba, By(0, 3))>>, 0-1)>>, a |-> <<Kw(1, Bytes(<<1, 2, 3>>))>>, b |-> <<Kw(1, Bytes(<<0, 0>>))>>],
     [c |-> <<Cls(<<F(1, Lst(U8, NoK), By(1, 3)), F(2, U8, Ix1(0))>>, 0-1)>>, a |-> <<Kw(1, L(<<1, 2>>)), Kw(2, IntV(4))>>, b |-> <<Kw(1, L(<<7, 255>>)), Kw(2, None)>>],
     [c |-> <<Cls(<<F(1, S0, By(0, 2))>>, 32)>>, a |-> <<Kw(1, Str(<<97>>))>>, b |-> <<Kw(1, Str(<<98, 233>>))>>],
     [c |-> <<Cls(<<F(1, U8, Ix1(0)), F(2, Ba, Sl(N(1), NoK))>>, 24)>>, a |-> <<Kw(1, IntV(1)), Kw(2, Bytes(<<2, 3>>))>>, b |-> <<Kw(1, IntV(1)), Kw(2, Bytes(<<9>>))>>],
     [c |-> <<Cls(<<Set(F(1, U8, Ix1(0)), Ln(2)), F(2, Ba, Sl(N(1), Op("add", N(1), Fd(1))))>>, 0-1)>>, a |-> <<Kw(2, Bytes(<<6>>))>>, b |-> <<Kw(2, Bytes(<<>>))>>],
     [c |-> <<Cls(<<F(1, S0, Sl(N(0), NoK))>>, 0-1)>>, a |-> <<Kw(1, Str(<<97, 98>>))>>, b |-> <<Kw(1, Str(<<>>))>>],
     [c |-> <<One, Cls(<<F(1, Buf(1), By(0, 1)), F(2, U8, Ix1(1))>>, 0-1)>>, a |-> <<Kw(1, Obj(1, <<IntV(3)>>)), Kw(2, IntV(4))>>, b |-> <<Kw(1, None), Kw(2, IntV(4))>>],
     [c |-> <<One, Cls(<<Set(F(1, U8, Ix1(0)), [k |-> "total"]), F(2, Lst(Buf(1), NoK), Sl(N(1), Fd(1)))>>, 0-1)>>, a |-> <<Kw(2, List(<<Obj(1, <<IntV(3)>>), Obj(1, <<IntV(4)>>)>>))>>, b |-> <<Kw(2, List(<<>>))>>]}
C == Len(sch.c)
Subject == [c |-> sch.c]
New(o, kw) == [op |-> "new", o |-> o, c |-> C, kw |-> kw]
On(op, o) == [op |-> op, o |-> o]
At1(b) == Bytes(b)
Wrote(x, kw) == LET c == Len(x.c)  r == PackObj(x.c, Obj(c, NewVals(x.c, c, kw)), NestedX) IN IF r.t = "val" THEN BytesOf(r.v.b) ELSE <<>>
W == sch.w
Wb == sch.wb
Chop(b) == SubSeq(b, 1, Max2(Len(b) - 1, 0))
Load(b) == [op |-> "load", b |-> b]
Read(o) == [op |-> "aread", o |-> o, c |-> C]
From(o, b) == [op |-> "afrom", o |-> o, c |-> C, b |-> b]
SW(s, os) == [op |-> "swrite", c |-> C, s |-> s, os |-> os, u |-> 200, w |-> 258]
SR(s, b) == [op |-> "sread", c |-> C, s |-> s, b |-> b]
Ops == {Load(W), Load(W \o Wb \o <<1>>), Load(Chop(W)), Read(1), Read(3), On("awrite", 1), On("awrite", 2), On("asize", 1), From(2, W), From(3, Chop(W)), From(3, W \o <<2>>)}
       \cup (IF All THEN {Load(<<>>), Load(Rep(255, 5)), Read(2), On("awrite", 3), On("asize", 3), On("astr", 2), On("out", 1), [op |-> "setx", o |-> 1, n |-> 1], New(1, sch.b), From(1, <<>>)} ELSE {})
Start == <<New(1, sch.a), New(2, sch.b)>>
End == <<On("left", 1), Read(3), On("left", 1), On("out", 1), On("astr", 1), On("asize", 1), On("astr", 2), On("astr", 3), On("all", 1), On("all", 3),
         SW("one", <<1>>), SW("two", <<1, 2>>), SW("two", <<3, 1>>), SW("cnt", <<>>), SW("cnt", <<1, 3, 2>>),
         SR("one", <<7>> \o W \o <<1, 2>>), SR("one", <<7>> \o W \o <<1>>), SR("two", <<7>> \o W \o Wb \o <<1, 2, 3>>), SR("two", <<7>> \o W \o Chop(W)),
         SR("cnt", <<3>> \o W \o Wb \o W \o <<1, 2>>), SR("cnt", <<0, 1, 2>>), SR("cnt", <<2>> \o W), [op |-> "csize", c |-> C]>>
Init == /\ sch \in {x @@ [w |-> Wrote(x, x.a), wb |-> Wrote(x, x.b)] : x \in Subjects} /\ st = AInit(sch) /\ hist = <<>> /\ pc = 0
Do(e) == LET r == AStep(Subject, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Next == /\ sch' = sch /\ pc' = pc + 1
        /\ \/ pc < 2 /\ Do(Start[pc + 1])
           \/ pc \in 2..Depth + 1 /\ \E e \in Ops : Do(e)
           \/ pc \in Depth + 2..Depth + 1 + Len(End) /\ Do(End[pc - Depth - 1])
              /\ (pc = Depth + 1 + Len(End) => PrintT("@@BEH " \o ToJson([sch |-> Subject, ev |-> hist'])))
Spec == Init /\ [][Next]_vars

(* What the definitions must imply *)
S == sch.c
Sz == StaticSize(S, C)
(* reading takes as many bytes as the class has, or none *)
Takes == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "aread" /\ st.in.t = "bytes") =>
    /\ st'.in.t = "bytes" => Len(st.in.i) - Len(st'.in.i) \in {0, CeilDiv(Max2(Sz, 0), 8)}
    /\ Sz < 0 => st'.in = st.in /\ hist'[Len(hist')].res = Err
    /\ hist'[Len(hist')].res.t = "list" => st'.in = Bytes(SubSeq(st.in.i, CeilDiv(Sz, 8) + 1, Len(st.in.i)))]_vars
(* what is written is what packing gives; its size is its length *)
Sizes == \A j \in 1..Len(hist) - 1 : (hist[j].op = "astr" /\ hist[j + 1].op = "asize" /\ hist[j].o = hist[j + 1].o) =>
    /\ (hist[j].res.t = "bytes") = (hist[j + 1].res.t = "int")
    /\ hist[j].res.t = "bytes" => hist[j + 1].res = IntV(Len(hist[j].res.i))
    /\ hist[j].res.t = "bytes" /\ Sz >= 0 => Len(hist[j].res.i) = CeilDiv(Sz, 8)
(* read back, packed again *)
Again == \A j \in 1..Len(hist) : (hist[j].op = "aread" /\ hist[j].res.t = "list") =>
    LET q == PackObj(S, Obj(C, hist[j].res.k), NestedX) IN q.t = "val" => Len(q.v.b) = 8 * CeilDiv(Sz, 8)
RoundTrip == (pc = 2 /\ Sz >= 0 /\ W # <<>>) => LET t == Taken(S, C, W) IN t.r.t = "val" /\ BytesOf(PackObj(S, t.r.v, NestedX).v.b) = W
==============================================================================
