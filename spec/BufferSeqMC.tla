------------------------------ MODULE BufferSeqMC ------------------------------
(* Every order of a few operations on two buffer objects of the same or of related classes, failing ones *)
(* included; then everything is looked at, and a new object made.                                        *)
EXTENDS Buffer, Json
CONSTANTS Depth, All
VARIABLES sch, st, hist, pc
vars == <<sch, st, hist, pc>>

N(n) == [k |-> "c", n |-> n]
NoK == [k |-> "no"]
Ix1(n) == [k |-> "ix", n |-> N(n)]
Sl(lo, hi) == [k |-> "sl", lo |-> lo, hi |-> hi]
Fd(f, d) == [k |-> "fld", f |-> f, self |-> d]
Ln(f) == [k |-> "len", f |-> f, self |-> 1]
Op(o, a, b) == [k |-> "op", o |-> o, a |-> a, b |-> b]
U8 == [k |-> "int", sz |-> 8, sg |-> FALSE, be |-> FALSE]
Ba == [k |-> "ba"]
Js == [k |-> "json"]
S0 == [k |-> "str", enc |-> "ascii", pad |-> 32, strip |-> <<0>>, just |-> 0]
Lst(el, n) == [k |-> "list", el |-> el, n |-> n, sel |-> NoK]
Buf(c) == [k |-> "buf", c |-> c, sel |-> NoK]
Yes == [k |-> "yes"]
F(n, ty, p, d) == [n |-> n, ty |-> ty, p |-> p, pu |-> [k |-> "same"], sbp |-> NoK, sau |-> NoK, pif |-> Yes, uif |-> Yes, ua |-> <<>>, d |-> d]
Set(f, e) == [f EXCEPT !.sbp = [k |-> "ref", e |-> e]]
If(f, e) == [f EXCEPT !.pif = [k |-> "e", e |-> e], !.uif = [k |-> "e", e |-> e]]
Cls(fs, base) == [fs |-> fs, size |-> 0-1, base |-> base]
L(s) == List([j \in 1..Len(s) |-> IntV(s[j])])
Rest(n) == Sl(N(1), Op("add", N(1), Fd(n, 0)))
(* c1, c2: the classes of the two objects; kw, b, bad: values, good bytes and bytes that cannot be read *)
Subjects ==
    {[c |-> <<Cls(<<Set(F(1, U8, Ix1(0), None), Ln(2)), F(2, Lst(U8, NoK), Rest(1), L(<<7>>))>>, <<>>)>>, c2 |-> 1,
      kw |-> <<[f |-> 2, v |-> L(<<1, 2>>)]>>, set |-> [f |-> 2, v |-> L(<<300>>)], b |-> <<3, 4, 5, 6>>, bad |-> <<3, 4>>],
     [c |-> <<Cls(<<F(1, Ba, Sl(N(1), N(3)), Bytes(<<8, 9>>)), F(5, U8, Ix1(0), IntV(2))>>, <<>>),
              Cls(<<F(3, Lst(U8, NoK), Sl(N(4), NoK), L(<<4>>)), F(1 + 1, U8, Ix1(3), None), F(1, Ba, Sl(N(1), N(3)), Bytes(<<8, 9>>)), F(5, U8, Ix1(0), IntV(2))>>, <<1>>)>>, c2 |-> 1,
      kw |-> <<[f |-> 5, v |-> IntV(1)]>>, set |-> [f |-> 1, v |-> Bytes(<<1, 2>>)], b |-> <<1, 2, 3, 4, 5>>, bad |-> <<>>],
     [c |-> <<Cls(<<F(1, Ba, Sl(N(0), N(2)), Bytes(<<8, 9>>))>>, <<>>),
              Cls(<<F(1, Buf(1), Sl(N(0), N(2)), Obj(1, <<Bytes(<<1, 1>>)>>)), F(2, Lst(Buf(1), NoK), Sl(N(2), N(6)), List(<<Obj(1, <<Bytes(<<2, 2>>)>>), Obj(1, <<Bytes(<<3, 3>>)>>)>>))>>, <<>>)>>, c2 |-> 2,
      kw |-> <<[f |-> 1, v |-> Obj(1, <<Bytes(<<5, 6>>)>>)]>>, set |-> [f |-> 1, v |-> None], b |-> <<1, 2, 3, 4, 5, 6>>, bad |-> <<1>>],
     [c |-> <<Cls(<<F(1, U8, Ix1(0), IntV(1)), If(F(2, Js, Sl(N(1), N(9)), V("dict", <<>>, <<Str(<<97>>), L(<<1>>)>>)), Op("eq", Fd(1, 1), N(1))),
                    If(F(3, S0, Sl(N(1), N(3)), Str(<<98>>)), Op("eq", Fd(1, 0), N(2)))>>, <<>>)>>, c2 |-> 1,
      kw |-> <<[f |-> 1, v |-> IntV(2)], [f |-> 3, v |-> Str(<<99>>)]>>, set |-> [f |-> 1, v |-> IntV(256)], b |-> <<2, 97, 98>>, bad |-> <<1, 123, 34>>],
     [c |-> <<Cls(<<F(1, U8, Ix1(0), IntV(0)),
                    [F(2, [k |-> "list", el |-> Buf(2), n |-> [k |-> "e", e |-> N(2)], sel |-> [k |-> "sel", f |-> 1, ki |-> 1, kb |-> 0, ch |-> <<[k |-> "cls", c |-> 1], [k |-> "none"]>>]], Sl(N(1), NoK), List(<<>>)) EXCEPT !.ua = <<1>>]>>, <<>>)>>, c2 |-> 1,
      kw |-> <<>>, set |-> [f |-> 2, v |-> List(<<None>>)], b |-> <<1, 0, 7>>, bad |-> <<>>]}
Sane(x) == ~\E j \in 1..Len(x.c[Len(x.c)].fs) : "sel" \in DOMAIN x.c[Len(x.c)].fs[j].ty /\ x.c[Len(x.c)].fs[j].ty.sel.k = "sel"
(* the one with a selector chooses among classes of its own *)
Own(x) == IF Sane(x) THEN x
          ELSE LET Two == Cls(<<F(1, Ba, Sl(N(0), N(2)), None)>>, <<>>) IN [x EXCEPT !.c = <<Two, Two>> \o @, !.c2 = 3]

C == Len(sch.c)
On(op, o) == [op |-> op, o |-> o]
New(o, c, kw) == [op |-> "new", o |-> o, c |-> c, kw |-> kw]
Un(o, b) == [op |-> "unpack", o |-> o, b |-> b, via |-> (Len(hist) + o) % 4]
Ops == {New(1, C, sch.kw), New(2, sch.c2, <<>>), On("pack", 1), Un(1, sch.b), Un(2, sch.b), Un(1, sch.bad),
        [op |-> "mut", o |-> 1, f |-> sch.set.f], [op |-> "mut", o |-> 2, f |-> sch.set.f]}
       \cup (IF All THEN {On("pack", 2), On("size", 1), [op |-> "mut", o |-> 1, f |-> 2], [op |-> "setx", o |-> 1, n |-> 1]} ELSE {})
       \cup {[op |-> "set", o |-> 1, f |-> sch.set.f, v |-> sch.set.v]}
Start == <<New(1, C, <<>>), New(2, sch.c2, <<>>)>>
End == <<On("all", 1), On("all", 2), New(3, C, <<>>), On("all", 3), On("pack", 1), On("pack", 2), On("all", 1), On("all", 2), On("pack", 3), Un(1, sch.b), On("all", 1), On("pack", 1)>>
Subject == [c |-> sch.c]
Init == /\ sch \in {Own(x) : x \in Subjects} /\ st = Init0(sch) /\ hist = <<>> /\ pc = 0
Do(e) == LET r == Step(Subject, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Next == /\ sch' = sch /\ pc' = pc + 1
        /\ \/ pc < 2 /\ Do(Start[pc + 1])
           \/ pc \in 2..Depth + 1 /\ \E e \in Ops : Do(e)
           \/ pc \in Depth + 2..Depth + 1 + Len(End) /\ Do(End[pc - Depth - 1])
              /\ (pc = Depth + 1 + Len(End) => PrintT("@@BEH " \o ToJson([sch |-> Subject, ev |-> hist'])))
Spec == Init /\ [][Next]_vars

(* An operation changes at most the object it names, queries and packing only computed fields. *)
Last == hist'[Len(hist')]
OnlyNamed == [][Len(hist') > Len(hist) => \A o \in 1..NO : o # Last.o => st'.o[o] = st.o[o] /\ st'.x[o] = st.x[o]]_vars
Quiet == [][(Len(hist') > Len(hist) /\ Last.op \in {"pack", "size"} /\ st.o[Last.o].t = "obj") =>
    LET a == st.o[Last.o]  b == st'.o[Last.o] IN
    \A j \in 1..Len(a.k) : sch.c[a.i[1]].fs[j].sbp.k = "no" => (b.k[j] = a.k[j] \/ Touchy(sch.c, a.k[j]))]_vars
(* A new object is as declared, whatever happened before. *)
Declared == \A j \in 1..Len(hist) - 1 : (hist[j].op = "new" /\ hist[j].kw = <<>> /\ hist[j + 1].op = "all" /\ hist[j + 1].o = hist[j].o) =>
    hist[j + 1].res = List([f \in 1..Len(sch.c[hist[j].c].fs) |-> sch.c[hist[j].c].fs[f].d])
(* What was unpacked depends on the input only; packing twice gives the same. *)
Unpacked == \A i, j \in 1..Len(hist) - 1 : (i < j /\ hist[i].op = "unpack" /\ hist[j].op = "unpack" /\ hist[i].b = hist[j].b /\ hist[i].o = 1 /\ hist[j].o = 1
                /\ hist[i + 1].op = "all" /\ hist[j + 1].op = "all" /\ hist[i + 1].o = 1 /\ hist[j + 1].o = 1 /\ st.x[1] = NestedX) => hist[i + 1].res = hist[j + 1].res
PackTwice == \A j \in 1..Len(hist) - 1 : (hist[j].op = "pack" /\ hist[j + 1].op = "pack" /\ hist[j].o = hist[j + 1].o) => hist[j].res = hist[j + 1].res
==============================================================================
