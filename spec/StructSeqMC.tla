------------------------------ MODULE StructSeqMC ------------------------------
(* Every order of a few operations on two objects of classes with changeable defaults ("S12"), on lazily *)
(* decoded fields ("S09"), and of writing and reading records through one stream ("S02", "S10").         *)
EXTENDS Struct, Json
CONSTANTS Group, Depth
VARIABLES sch, st, hist, pc
vars == <<sch, st, hist, pc>>

U1 == [k |-> "num", n |-> 1, sg |-> FALSE, be |-> TRUE]
I2 == [k |-> "num", n |-> 2, sg |-> TRUE, be |-> FALSE]
VArr(el) == [k |-> "varr", sz |-> U1, el |-> el]
Sub(c) == [k |-> "struct", c |-> c]
Fld(x, m) == [k |-> "fld", x |-> x, m |-> m]
Lazy(fs, n, lv) == [k |-> "lazy", fs |-> fs, n |-> n, lv |-> lv]
Bit(x, w) == [x |-> x, w |-> w, c |-> FALSE, v |-> None]
NoInit == [on |-> 0, ask |-> <<>>]
Cls(fs, ds, init) == [fs |-> fs, cx |-> 0-1, init |-> init, lv |-> [j \in 1..Len(ds) |-> [d |-> ds[j], c |-> FALSE]]]
A(x, l) == Obj(1, <<x, l, None>>)
L(s) == List([j \in 1..Len(s) |-> IntV(s[j])])
ClA == Cls(<<Fld(1, U1), Fld(2, VArr(U1))>>, <<IntV(1), L(<<7>>)>>, NoInit)
ClB == Cls(<<Fld(1, Sub(1)), Fld(2, [k |-> "farr", n |-> 2, el |-> Sub(1)])>>, <<A(IntV(2), L(<<8>>)), List(<<A(IntV(3), L(<<>>)), A(IntV(4), L(<<9>>))>>)>>, NoInit)
Inits == {NoInit, [on |-> 1, ask |-> <<2, 0-1>>], [on |-> 1, ask |-> <<0-1, 1>>]}
Subjects ==
    CASE Group = "S12" -> {<<[ClA EXCEPT !.init = i]>> : i \in Inits} \cup {<<ClA, ClB>>}
                          \cup {<<Cls(<<[k |-> "opt", x |-> 1, m |-> U1, pr |-> [k |-> "eq", x |-> 2, v |-> IntV(1)]], Fld(2, VArr(U1))>>, <<None, L(<<1>>)>>, NoInit)>>}
      [] Group = "S09" -> {<<Cls(<<Lazy(<<Fld(1, U1), Fld(2, [k |-> "map", pairs |-> <<<<IntV(5), IntV(1)>>, <<IntV(6), IntV(2)>>>>, m |-> U1])>>, 2, <<1, 2>>), Fld(3, U1)>>,
                                <<None, None, None>>, NoInit)>>,
                           <<Cls(<<Lazy(<<Fld(1, [k |-> "farr", n |-> 1, el |-> U1]), [k |-> "bits", s |-> <<Bit(2, 3), Bit(0, 5)>>]>>, 2, <<1, 2>>), Fld(3, U1)>>,
                                <<L(<<4>>), None, None>>, NoInit)>>}
      [] Group = "S02" -> {<<ClA, Cls(<<Fld(1, I2), [k |-> "bits", s |-> <<Bit(2, 3), Bit(3, 5)>>]>>, <<IntV(0-2), IntV(5), IntV(1)>>, NoInit)>>,
                           <<ClA, Cls(<<[k |-> "lazy", fs |-> <<Fld(1, I2)>>, n |-> 2, lv |-> <<1>>], [k |-> "opt", x |-> 2, m |-> U1, pr |-> [k |-> "eq", x |-> 1, v |-> IntV(1)]]>>,
                                <<IntV(1), IntV(9)>>, NoInit)>>}
      [] Group = "S10" -> {<<Cls(<<Fld(1, U1), Fld(2, VArr(U1))>>, <<IntV(1), L(<<7>>)>>, NoInit),
                             Cls(<<Fld(1, m)>>, <<A(IntV(1), L(<<2, 3>>))>>, NoInit)>> :
                           m \in {[k |-> "sel", key |-> U1, map |-> <<<<IntV(1), 1>>>>, def |-> 0],
                                  [k |-> "fsel", f |-> "look", x |-> 0, n |-> 2, map |-> <<<<IntV(1), 1>>, <<IntV(2), 1>>>>, def |-> 0, twice |-> TRUE]}}

C == Len(sch.c)
S == 8 * Len(hist) + 1
New(o, c) == [op |-> "new", o |-> o, c |-> c, kw |-> <<>>, pos |-> <<>>]
Get(o) == [op |-> "get", o |-> o, path |-> <<>>]
On(op, o) == [op |-> op, o |-> o, s |-> S, ver |-> 0-1]
Asks == sch.c[C].init.ask
NewKw(o) == [op |-> "new", o |-> o, c |-> C, pos |-> <<>>,
             kw |-> <<[x |-> 1, v |-> IF Len(sch.c) = 2 THEN A(IntV(5), L(<<5>>)) ELSE IntV(5)]>> \o
                    (IF 0-1 \in {Asks[j] : j \in 1..Len(Asks)} THEN <<[x |-> 0-1, v |-> IntV(11)]>> ELSE <<>>)]
Ops12 == {New(1, C), NewKw(2), On("ser", 1), On("rep", 2), On("size", 1)}
         \cup (IF Len(sch.c) = 1 THEN {[op |-> "app", o |-> o, path |-> <<2>>, v |-> IntV(20 + o)] : o \in 1..2}
                                      \cup {[op |-> "set", o |-> 1, path |-> <<2>>, v |-> L(<<>>)], [op |-> "set", o |-> 2, path |-> <<1>>, v |-> IntV(30)]}
               ELSE {[op |-> "app", o |-> 1, path |-> <<1, 2>>, v |-> IntV(21)], [op |-> "set", o |-> 1, path |-> <<2, 1>>, v |-> A(IntV(40), L(<<>>))],
                     [op |-> "set", o |-> 2, path |-> <<2, 2, 1>>, v |-> IntV(41)], [op |-> "app", o |-> 2, path |-> <<2, 1, 2>>, v |-> IntV(42)]})
De(d) == [op |-> "de", o |-> 1, c |-> C, d |-> d, s |-> S, ver |-> 0-1]
Ops09 == {De(<<1, 2, 3>>), De(<<1, 9, 3>>), De(<<1, 2>>), On("ser", 1), On("size", 1), Get(1)}
         \cup {[op |-> "get", o |-> 1, path |-> <<x>>] : x \in 1..3}
         \cup {[op |-> "set", o |-> 1, path |-> <<x>>, v |-> IF x = 1 /\ sch.c[1].lv[1].d.t = "list" THEN L(<<8>>) ELSE IntV(4 + x)] : x \in 1..3}
Wr(o) == On("wr", o)
Rd(o, c) == [op |-> "rd", o |-> o, c |-> c, ver |-> 0-1, s |-> S]
OpsW == {Wr(1), Wr(2), [op |-> "raw", d |-> <<1, 2, 1>>], [op |-> "open", s |-> S]}
OpsR == {Rd(3, 1), Rd(4, C), [op |-> "left"]}
Opened == \E j \in 1..Len(hist) : hist[j].op = "open"
NOpened == CHOOSE j \in 1..Len(hist) : hist[j].op = "open"
Streams == Group \in {"S02", "S10"}
Ops == CASE Group = "S12" -> Ops12 [] Group = "S09" -> Ops09
         [] Streams -> IF Opened THEN OpsR ELSE IF pc >= Depth THEN {[op |-> "open", s |-> S]} ELSE OpsW
First == IF Streams THEN <<New(1, 1), New(2, C)>> ELSE IF Group = "S09" THEN <<New(1, C)>> ELSE <<New(1, C), New(2, C)>>
Last == CASE Group = "S12" -> <<Get(1), Get(2), New(3, C), Get(3), On("ser", 1), On("ser", 2)>>
          [] Group = "S09" -> <<On("ser", 1), Get(1)>>
          [] Streams -> <<[op |-> "left"], Get(3), Get(4)>>
LeftAlready == \E j \in 1..Len(hist) : hist[j].op = "left"
Steps == IF Streams THEN 2 * Depth + 1 ELSE Depth
Init == /\ sch \in {[c |-> s] : s \in Subjects} /\ st = Init0(sch) /\ hist = <<>> /\ pc = 0 - 2
Do(e) == LET r == Step(sch, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
Next == /\ sch' = sch /\ pc' = pc + 1
        /\ \/ pc < 0 /\ pc + 3 <= Len(First) /\ Do(First[pc + 3])
           \/ pc < 0 /\ pc + 3 > Len(First) /\ UNCHANGED <<st, hist>>
           \/ pc \in 0..Steps - 1 /\ ~LeftAlready /\ \E e \in Ops : Do(e)
           \/ pc \in 0..Steps - 1 /\ LeftAlready /\ UNCHANGED <<st, hist>>
           \/ pc >= Steps /\ pc - Steps + 1 <= Len(Last) /\ ~(Last[pc - Steps + 1].op = "left" /\ LeftAlready)
              /\ Do(Last[pc - Steps + 1]) /\ (pc - Steps + 1 = Len(Last) => PrintT("@@BEH " \o ToJson([sch |-> sch, ev |-> hist'])))
           \/ pc >= Steps /\ pc - Steps + 1 <= Len(Last) /\ Last[pc - Steps + 1].op = "left" /\ LeftAlready /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_vars

(* An operation changes at most the object it names; queries change none; new objects are as declared. *)
Named(e) == IF e.op \in {"new", "set", "app", "de", "rd"} THEN e.o ELSE 0
OnlyNamed == [][Len(hist') > Len(hist) => \A o \in 1..NO : o # Named(hist'[Len(hist')]) => st'.o[o] = st.o[o]]_vars
FreshIsDeclared == \A j \in 1..Len(hist) : (hist[j].op = "new" /\ hist[j].kw = <<>> /\ j < Len(hist) /\ hist[j + 1].op = "get" /\ hist[j + 1].path = <<>>) =>
    hist[j + 1].res = Fresh(sch, hist[j].c)
(* Records come out as they went in. *)
Written == SelectSeq(hist, LAMBDA e : e.op = "wr")
ReadBack == SelectSeq(hist, LAMBDA e : e.op = "rd")
InOrder == Streams => (st.p <= Len(st.w) /\
    \A j \in 1..Len(hist) : hist[j].op = "left" /\ hist[j].res.t = "bytes" =>
        hist[j].res.i = SubSeq(st.w, Len(st.w) - Len(hist[j].res.i) + 1, Len(st.w)))
==============================================================================
