------------------------------- MODULE StructMC -------------------------------
(* Catalogues of small struct classes: every class of the chosen catalogue, every choice of its field  *)
(* values, written, measured, cut at every byte, read back, followed by more input and damaged; or every *)
(* order of a few operations on a few objects and one stream.                                         *)
EXTENDS Struct, Json
CONSTANTS Group,      \* which catalogue
          Deep      \* more of it
VARIABLES sch, st, hist, pc
vars == <<sch, st, hist, pc>>

\* types
Num(n, sg, be) == [k |-> "num", n |-> n, sg |-> sg, be |-> be]
U1 == Num(1, FALSE, TRUE)
I2 == Num(2, TRUE, FALSE)
Flt(n, be) == [k |-> "flt", n |-> n, be |-> be]
PStr(n, pad, dir) == [k |-> "pstr", n |-> n, pad |-> pad, dir |-> dir]
VStr(sz, pad, dir) == [k |-> "vstr", sz |-> sz, pad |-> pad, dir |-> dir]
FArr(n, el) == [k |-> "farr", n |-> n, el |-> el]
VArr(sz, el) == [k |-> "varr", sz |-> sz, el |-> el]
SArr(sz, el) == [k |-> "sarr", sz |-> sz, el |-> el]
Map(m, pairs) == [k |-> "map", pairs |-> pairs, m |-> m]
Sub(c) == [k |-> "struct", c |-> c]
Ptr(x) == [k |-> "ptr", x |-> x]
Pad(n, ch) == [k |-> "pad", n |-> n, ch |-> ch]
CNum == [k |-> "cnum", n |-> 1]
Sel(key, map, def) == [k |-> "sel", key |-> key, map |-> map, def |-> def]
By(x, map, def) == [k |-> "fsel", f |-> "by", x |-> x, n |-> 0, map |-> map, def |-> def, twice |-> FALSE]
Look(n, map, def) == [k |-> "fsel", f |-> "look", x |-> 0, n |-> n, map |-> map, def |-> def, twice |-> FALSE]
\* fields
Fld(x, m) == [k |-> "fld", x |-> x, m |-> m]
Const(x, m, v) == [k |-> "const", x |-> x, m |-> m, v |-> v]
Opt(x, m, pr) == [k |-> "opt", x |-> x, m |-> m, pr |-> pr]
Anon(m) == [k |-> "anon", m |-> m]
Bit(x, w) == [x |-> x, w |-> w, c |-> FALSE, v |-> None]
BitC(x, w, v) == [x |-> x, w |-> w, c |-> TRUE, v |-> v]
Bits(s) == [k |-> "bits", s |-> s]
PB(x, sl) == [x |-> x, sl |-> sl, c |-> FALSE, v |-> None, w |-> SliceLen(sl)]
PBC(x, sl, v) == [x |-> x, sl |-> sl, c |-> TRUE, v |-> v, w |-> SliceLen(sl)]
PBits(n, s) == [k |-> "pbits", n |-> n, s |-> s, size |-> TRUE]
Lazy(fs, n, lv) == [k |-> "lazy", fs |-> fs, n |-> n, lv |-> lv]
Grp(fs) == [k |-> "grp", fs |-> fs]
\* classes; every leaf without a default, unless it is constant
RECURSIVE Consts(_)
Consts(fs) == IF fs = <<>> THEN <<>>
              ELSE LET f == Head(fs) IN
                   (CASE f.k = "const" -> <<<<f.x, f.v>>>>
                      [] f.k \in {"bits", "pbits"} -> Concat([j \in 1..Len(f.s) |-> IF f.s[j].x # 0 /\ f.s[j].c THEN <<<<f.s[j].x, f.s[j].v>>>> ELSE <<>>])
                      [] f.k \in {"lazy", "grp"} -> Consts(f.fs)
                      [] OTHER -> <<>>) \o Consts(Tail(fs))
NoInit == [on |-> 0, ask |-> <<>>]
ClsD(fs, n, cx, ds) ==
    LET cs == Consts(fs)
        at(x) == {j \in 1..Len(cs) : cs[j][1] = x}
    IN [fs |-> fs, cx |-> cx, init |-> NoInit,
        lv |-> [x \in 1..n |-> IF at(x) # {} THEN [d |-> cs[CHOOSE j \in at(x) : TRUE][2], c |-> TRUE]
                               ELSE [d |-> IF x <= Len(ds) THEN ds[x] ELSE None, c |-> FALSE]]]
Cls(fs, n) == ClsD(fs, n, 0-1, <<>>)
S1(f) == <<Cls(<<f>>, 1)>>
S2(m1, m2) == <<Cls(<<Fld(1, m1), Fld(2, m2)>>, 2)>>

\* values of a type, the good ones first
Power(n) == Rep(0, n) \o <<1>>
NumVals(n, sg) ==
    IF sg THEN <<IntV(1), IntV(0), IntV(0-1), BigV(0, Rep(255, n - 1) \o <<127>>), BigV(1, Rep(0, n - 1) \o <<128>>),
                 BigV(0, Rep(0, n - 1) \o <<128>>), BigV(1, <<1>> \o (IF n = 1 THEN <<>> ELSE Rep(0, n - 2) \o <<128>>))>>
    ELSE <<IntV(1), IntV(0), BigV(0, Rep(255, n)), BigV(0, Rep(0, n - 1) \o <<128>>), BigV(0, Power(n)), IntV(0-1)>>
NumVal1(n, sg) == IF n = 1 /\ sg THEN Put(NumVals(1, TRUE), 7, BigV(1, <<129>>)) ELSE NumVals(n, sg)
F(b) == V("float", b, <<>>)
FltVals == <<F(<<63, 248, 0, 0, 0, 0, 0, 0>>), F(Rep(0, 8)), F(<<128, 0, 0, 0, 0, 0, 0, 0>>), F(<<63, 185, 153, 153, 153, 153, 153, 154>>),
             F(<<127, 240, 0, 0, 0, 0, 0, 0>>), F(<<54, 160, 0, 0, 0, 0, 0, 0>>), F(<<54, 144, 0, 0, 0, 0, 0, 1>>), F(<<71, 239, 255, 255, 224, 0, 0, 0>>),
             F(<<71, 239, 255, 255, 240, 0, 0, 0>>), F(<<127, 239, 255, 255, 255, 255, 255, 255>>), F(<<0, 0, 0, 0, 0, 0, 0, 1>>), IntV(3)>>
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN <<<<>>>> ELSE LET r == Strings(A, n - 1) IN
                 r \o Concat([a \in 1..Len(A) |-> [j \in 1..Len(SelectSeq(r, LAMBDA s : Len(s) = n - 1)) |->
                                Append(SelectSeq(r, LAMBDA s : Len(s) = n - 1)[j], A[a])]])
StrVals(A, n) == LET s == Strings(A, n) IN [j \in 1..Len(s) |-> Bytes(s[j])]
(* values that differ in one place from the first of each *)
RECURSIVE Vary(_)
Vary(vs) == IF vs = <<>> THEN <<<<>>>>
            ELSE LET r == Vary(Tail(vs))  h == Head(vs) IN
                 [j \in 1..Len(r) |-> <<h[1]>> \o r[j]] \o [j \in 1..Len(h) - 1 |-> <<h[j + 1]>> \o r[1]]
Some(s, n) == Take(s, n)
RECURSIVE TVals(_, _, _)
RECURSIVE CVals(_, _)
TVals(s, m, w) ==      \* w: how many
    Some(CASE m.k = "num"  -> NumVal1(m.n, m.sg)
           [] m.k = "cnum" -> NumVals(1, FALSE)
           [] m.k = "flt"  -> FltVals
           [] m.k = "pstr" -> LET A == <<97>> \o m.pad \o (IF InSeq(0, m.pad) THEN <<>> ELSE <<0>>) IN
                              (IF m.dir = 0 THEN SelectSeq(StrVals(A, m.n), LAMBDA v : Len(v.i) = m.n) ELSE <<>>) \o StrVals(A, m.n + 1)
           [] m.k = "vstr" -> <<Bytes(<<97, 98>>)>> \o StrVals(<<97>> \o m.pad, 2) \o <<Str(<<97>>)>>
                              \o (IF Group = "S04" /\ m.sz.k = "num" /\ m.sz.n = 2 /\ m.dir < 2 THEN <<Bytes(Rep(97, 300)), Bytes(Rep(98, 1000))>> ELSE <<>>)
           [] m.k = "farr" -> LET e == TVals(s, m.el, 4) IN
                              [j \in 1..Len(e) |-> List([h \in 1..m.n |-> IF h = 1 THEN e[j] ELSE e[1]])]
                              \o (IF m.n = 0 THEN <<>> ELSE <<List(Rep(e[1], m.n - 1))>>) \o <<List(Rep(e[1], m.n + 1)), None>>
           [] m.k \in {"varr", "sarr"} -> LET e == TVals(s, m.el, 4) IN
                              <<List(<<e[1], e[Len(e)]>>), List(<<>>)>> \o [j \in 1..Len(e) |-> List(<<e[j]>>)]
                              \o <<List(<<e[Min2(2, Len(e))], e[Min2(3, Len(e))], e[1]>>)>>
                              \o (IF m.el = U1 /\ Group \in {"S03", "S05"} THEN <<List(Rep(e[1], 300))>> ELSE <<>>)
           [] m.k = "map"  -> [j \in 1..Len(m.pairs) |-> m.pairs[j][1]] \o <<IntV(77)>>
           [] m.k = "ptr"  -> <<None>>
           [] m.k = "struct" -> CVals(s, m.c)
           [] m.k \in {"sel", "fsel"} -> LET cs == [j \in 1..Len(m.map) |-> m.map[j][2]] \o (IF m.def = 0 THEN <<>> ELSE <<m.def>>) IN
                              Concat([j \in 1..Len(cs) |-> Some(CVals(s, cs[j]), 3)])
           [] OTHER -> <<None>>, w)
RECURSIVE LeafTypes(_, _)
LeafTypes(s, fs) ==      \* <<leaf, values>>
    IF fs = <<>> THEN <<>>
    ELSE LET f == Head(fs) IN
         (CASE f.k = "fld" -> <<<<f.x, TVals(s, f.m, 40)>>>>
            [] f.k = "opt" -> <<<<f.x, TVals(s, f.m, 3) \o <<None>>>>>>
            [] f.k = "bits" -> Concat([j \in 1..Len(f.s) |-> IF f.s[j].x = 0 \/ f.s[j].c THEN <<>> ELSE
                                 <<<<f.s[j].x, <<IntV(1), IntV(0), IntV(2 ^ f.s[j].w - 1), IntV(2 ^ f.s[j].w), IntV(0-1)>>>>>>])
            [] f.k = "pbits" -> Concat([j \in 1..Len(f.s) |-> IF f.s[j].c THEN <<>> ELSE
                                 <<<<f.s[j].x, <<IntV(1), IntV(0), IntV(2 ^ f.s[j].w - 1), IntV(2 ^ (f.s[j].w - 1)), IntV(0-1)>>>>>>])
            [] f.k \in {"lazy", "grp"} -> LeafTypes(s, f.fs)
            [] OTHER -> <<>>) \o LeafTypes(s, Tail(fs))
LeafVals(s, c) == LET t == LeafTypes(s, s[c].fs) IN
    [x \in 1..Len(s[c].lv) |-> LET J == {j \in 1..Len(t) : t[j][1] = x} IN
        IF J = {} THEN <<s[c].lv[x].d>> ELSE t[CHOOSE j \in J : TRUE][2]]
CVals(s, c) == LET r == Vary(LeafVals(s, c)) IN [j \in 1..Len(r) |-> Obj(c, r[j] \o <<None>>)]
Args(s, c, vs) == SelectSeq([x \in 1..Len(vs) |-> [x |-> x, v |-> vs[x]]], LAMBDA a : ~s[c].lv[a.x].c /\ a.v.t # "none")

------------------------------------------------------------------------------
\* catalogues: sequences of classes, the last of which is exercised
BaseA == Cls(<<Fld(1, U1)>>, 1)
BaseB == Cls(<<Fld(1, U1), Fld(2, VStr(U1, <<0>>, 1))>>, 2)
KeyA == Cls(<<Const(1, U1, IntV(1)), Fld(2, U1)>>, 2)
KeyB == Cls(<<Const(1, U1, IntV(2)), Fld(2, I2)>>, 2)
Pairs == <<<<IntV(5), IntV(1)>>, <<Str(<<97>>), IntV(2)>>, <<Bytes(<<1>>), IntV(255)>>>>
Strs == UNION {{PStr(n, p, d) : n \in 1..2} : p \in {<<0>>, <<32, 0>>}, d \in 0..3}
VStrs == {VStr(sz, p, d) : sz \in {U1, Num(2, FALSE, FALSE)}, p \in {<<0>>, <<32>>}, d \in 0..3}
Nums == {Num(n, sg, be) : n \in {1, 2, 4, 8}, sg \in BOOLEAN, be \in BOOLEAN}
Flts == {Flt(n, be) : n \in {4, 8}, be \in BOOLEAN}
Els == {U1, I2, PStr(1, <<0>>, 1), VStr(U1, <<0>>, 1), Sub(1), FArr(2, U1), VArr(U1, U1), SArr(U1, I2)}
Arrs(E) == UNION {{FArr(0, e), FArr(1, e), FArr(2, e), VArr(U1, e), SArr(U1, e), SArr(Num(2, FALSE, FALSE), e)} : e \in E}
Types == {U1, I2, Flt(4, TRUE), PStr(2, <<0>>, 1), VStr(U1, <<0>>, 1), Map(U1, Pairs), Sub(1), FArr(2, U1), VArr(U1, I2), SArr(U1, VStr(U1, <<0>>, 1)), Sel(U1, <<<<IntV(1), 2>>>>, 3)}
Three == <<BaseB, KeyA, KeyB>>
With(f, n) == {Three \o <<Cls(<<f>>, n)>>}
Kinds(x) == {Fld(x, m) : m \in Types} \cup {Const(x, I2, IntV(258)), Opt(x, U1, [k |-> "yes"]), Lazy(<<Fld(x, I2)>>, 2, <<x>>),
             Bits(<<Bit(x, 4), Bit(0, 4)>>), PBits(1, <<PB(x, <<<<4, 8>>, <<0, 2>>>>)>>), Grp(<<Fld(x, U1), Anon(Pad(1, 255))>>)}
Pads == {Pad(1, 0), Pad(2, 32)}
RECURSIVE Parts(_, _)
Parts(n, k) == IF k = 1 THEN {<<n>>} ELSE UNION {{<<a>> \o r : r \in Parts(n - a, k - 1)} : a \in 1..n - k + 1}
BitGroups == UNION {{[j \in 1..Len(p) |-> Bit(j, p[j])], [j \in 1..Len(p) |-> Bit(IF j = 1 THEN 0 ELSE j - 1, p[j])],
                     [j \in 1..Len(p) |-> IF j = Len(p) THEN BitC(j, p[j], IntV(1)) ELSE Bit(j, p[j])]} :
                    p \in UNION {Parts(8, k) : k \in 2..4} \cup {<<4, 12>>, <<9, 7>>, <<1, 15>>, <<7, 10, 7>>, <<3, 20, 1>>}}
NLeaf(s) == Cardinality({s[j].x : j \in 1..Len(s)} \ {0})
(* slices of two bytes at the given cuts, assigned to two fields in either order *)
SliceGroups == {<<PB(1, <<<<a, b>>>>), PB(2, <<<<b, 16>>, <<0, a>>>>)>> : a \in 1..7, b \in 8..15}
               \cup {<<PB(1, <<<<b, 16>>>>), PB(2, <<<<a, b>>>>)>> : a \in 1..7, b \in 8..12}
               \cup {<<PB(1, <<<<b, 16>>>>), PBC(2, <<<<a, b - 1>>>>, IntV(1))>> : a \in 1..5, b \in 8..12}
Prs == {[k |-> "yes"], [k |-> "no"], [k |-> "eq", x |-> 1, v |-> IntV(1)], [k |-> "ne", x |-> 1, v |-> IntV(1)], [k |-> "ver", n |-> 1]}

Catalogue ==
    CASE Group = "S01" -> {S2(m, U1) : m \in Nums \cup Flts}
      [] Group = "S02" -> {Three \o <<Cls(<<f, g>>, 2)>> : f \in Kinds(1), g \in IF Deep THEN Kinds(2) ELSE
                            {Fld(2, U1), Fld(2, VStr(U1, <<0>>, 1)), Fld(2, Sub(1)), Bits(<<Bit(2, 4), Bit(0, 4)>>), Lazy(<<Fld(2, I2)>>, 2, <<2>>)}}
                        \cup {Three \o <<Cls(<<f, Anon(p), g>>, 2)>> : f \in Kinds(1), p \in Pads, g \in {Fld(2, U1)}}
                        \cup (IF Deep THEN {Three \o <<Cls(<<f, g, h>>, 3)>> : f \in Kinds(1), g \in Kinds(2), h \in Kinds(3)} ELSE {})
      [] Group = "S03" -> {<<BaseB>> \o S1(Fld(1, m)) : m \in Strs \cup VStrs \cup Arrs(Els)}
                        \cup {<<BaseA>> \o S1(Fld(1, m)) : m \in Arrs({Sub(1)}) \cup (IF Deep THEN Arrs(Arrs({U1, VStr(U1, <<0>>, 1)})) ELSE {})}
                        \cup {Three \o S1(Fld(1, m)) : m \in UNION {{Sel(U1, p, d), Look(2, p, d), FArr(2, Sel(U1, p, d))} :
                               p \in {<<<<IntV(1), 2>>, <<IntV(2), 3>>>>, <<<<IntV(1), 3>>, <<IntV(2), 1>>>>, <<<<IntV(1), 1>>, <<IntV(2), 2>>>>}, d \in {0, 1, 3}}}
                        \cup {Three \o S1(Opt(1, m, [k |-> "yes"])) : m \in Types} \cup {Three \o S1(f) : f \in Kinds(1)}
      [] Group = "S04" -> {S2(m, U1) : m \in Strs \cup VStrs}
                        \cup {<<Cls(<<Fld(1, U1), Fld(2, VStr(Ptr(1), p, d))>>, 2)>> : p \in {<<0>>, <<32, 97>>}, d \in 0..3}
                        \cup (IF Deep THEN {S2(PStr(3, p, d), U1) : p \in {<<0>>, <<32, 0>>}, d \in 0..3} ELSE {})
      [] Group = "S05" -> {<<BaseB, Cls(<<Fld(1, m), Fld(2, U1)>>, 2)>> : m \in Arrs(Els)}
                        \cup {<<BaseB, Cls(<<Fld(1, U1), Fld(2, VArr(Ptr(1), e))>>, 2)>> : e \in Els}
                        \cup {<<BaseB, Cls(<<Fld(1, U1), Fld(2, SArr(Ptr(1), e))>>, 2)>> : e \in Els}
                        \cup (IF Deep THEN {<<BaseB, Cls(<<Fld(1, m)>>, 1)>> : m \in Arrs(Arrs({U1, VStr(U1, <<0>>, 1)}))} ELSE {})
      [] Group = "S06" -> {<<Cls(<<Bits(s)>>, NLeaf(s))>> : s \in BitGroups}
                        \cup {<<Cls(<<PBits(2, s)>>, 2)>> : s \in SliceGroups}
      [] Group = "S07" -> {Three \o <<Cls(<<Fld(1, U1), Const(2, p[1], p[2])>>, 2)>> :
                           p \in {<<U1, IntV(5)>>, <<I2, IntV(0-2)>>, <<Num(8, FALSE, FALSE), BigV(0, Rep(255, 8))>>, <<Flt(4, TRUE), FltVals[4]>>,
                                  <<PStr(2, <<0>>, 1), Bytes(<<97>>)>>, <<VStr(U1, <<32>>, 1), Bytes(<<97, 98>>)>>, <<FArr(2, U1), List(<<IntV(1), IntV(2)>>)>>,
                                  <<Sub(1), Obj(1, <<IntV(3), Bytes(<<97>>), None>>)>>, <<Map(U1, Pairs), Str(<<97>>)>>,
                                  <<VArr(U1, Sub(2)), List(<<Obj(2, <<IntV(1), IntV(2), None>>)>>)>>}}
                        \cup {<<Cls(<<Bits(<<BitC(1, 3, IntV(5)), Bit(2, 5)>>)>>, 2)>>, <<Cls(<<PBits(1, <<PBC(1, <<<<4, 8>>, <<0, 2>>>>, IntV(33)), PB(2, <<<<2, 4>>>>)>>)>>, 2)>>}
      [] Group = "S08" -> {<<BaseB, Cls(<<Fld(1, U1), Opt(2, m, pr), Fld(3, U1)>>, 3)>> : m \in {U1, I2, VStr(U1, <<0>>, 1), Sub(1), FArr(2, U1)}, pr \in Prs}
                        \cup {<<ClsD(<<Fld(1, U1), Opt(2, U1, pr)>>, 2, 0-1, <<None, IntV(9)>>)>> : pr \in Prs}
      [] Group = "S09" -> {<<BaseA, Cls(<<Fld(1, U1), Lazy(fs, SumSeq([j \in 1..Len(fs) |-> fs[j].m.n]), [j \in 1..Len(fs) |-> j + 1]), Fld(4, U1)>>, 4)>> :
                           fs \in {<<Fld(2, a), Fld(3, b)>> : a, b \in {U1, I2, PStr(2, <<0>>, 1)}}}
                        \cup {<<BaseA, Cls(<<Lazy(<<Fld(1, Map(U1, Pairs)), Fld(2, I2)>>, 3, <<1, 2>>), Fld(3, U1)>>, 3)>>,
                              <<BaseA, Cls(<<Lazy(<<Const(1, U1, IntV(7)), Fld(2, Sub(1))>>, 2, <<2>>)>>, 2)>>,
                              <<BaseA, Cls(<<Lazy(<<Bits(<<Bit(1, 3), Bit(2, 5)>>), Fld(3, FArr(2, Sub(1)))>>, 3, <<1, 2, 3>>), Lazy(<<Fld(4, Map(U1, Pairs))>>, 1, <<4>>)>>, 4)>>}
      [] Group = "S10" -> {Three \o <<Cls(<<Fld(1, U1), Fld(2, m), Fld(3, U1)>>, 3)>> :
                           m \in {Sel(U1, <<<<IntV(1), 2>>, <<IntV(2), 3>>>>, d) : d \in {0, 1}}
                                 \cup {Look(n, <<<<IntV(1), 2>>, <<IntV(2), 3>>>>, d) : n \in 1..3, d \in {0, 1}}
                                 \cup {Sel(I2, <<<<IntV(1), 2>>, <<IntV(257), 2>>>>, 3), By(1, <<<<IntV(1), 2>>, <<IntV(0), 3>>>>, 1)}}
                        \cup {Three \o <<Cls(<<Fld(1, VArr(U1, Sel(U1, <<<<IntV(1), 2>>, <<IntV(2), 3>>>>, 0)))>>, 1)>>,
                              Three \o <<Cls(<<Fld(1, FArr(2, Look(2, <<<<IntV(1), 2>>, <<IntV(0), 3>>>>, 2)))>>, 1)>>}
      [] Group = "S11" -> {Three \o <<Cls(<<f, g>>, 2)>> : f \in Kinds(1), g \in {Fld(2, U1), Lazy(<<Fld(2, I2)>>, 2, <<2>>), Opt(2, I2, [k |-> "yes"])}}
                        \cup {Three \o <<Cls(<<f, Anon(p)>>, 1)>> : f \in Kinds(1), p \in Pads} \cup {<<BaseB>> \o S1(Fld(1, m)) : m \in Arrs(Els)}
                        \cup {<<Cls(<<PBits(3, <<PB(1, <<<<4, 8>>>>)>>)>>, 1)>>,
                              <<Cls(<<PBits(6, <<PB(1, <<<<4, 8>>>>), PB(2, <<<<20, 40>>>>)>>)>>, 2)>>, <<Cls(<<PBits(9, <<PB(1, <<<<64, 72>>>>), PB(2, <<<<3, 10>>, <<30, 40>>>>)>>), Fld(3, U1)>>, 3)>>,
                              <<Cls(<<Bits(<<Bit(1, 20), Bit(2, 25), Bit(3, 3)>>)>>, 3)>>, <<Cls(<<Bits(<<Bit(1, 28), Bit(0, 20), Bit(2, 28), Bit(3, 4)>>), Fld(4, U1)>>, 4)>>}
      [] Group = "S13" -> {<<Cls(<<Fld(1, U1), Fld(2, FArr(2, U1)), Fld(3, VStr(Ptr(1), <<0>>, 1))>>, 3),
                           ClsD(<<Fld(1, U1), Fld(2, m), Fld(3, VArr(Ptr(1), CNum))>>, 3, cx, <<>>)>> :
                           m \in {Sub(1), VArr(U1, Sub(1)), FArr(1, Sub(1)), By(1, <<<<IntV(1), 1>>>>, 0), CNum, Map(U1, Pairs)}, cx \in {0-1, 3}}
      [] OTHER -> {}

------------------------------------------------------------------------------
Ver == IF Group \in {"S08", "S13"} THEN 1 ELSE 0-1
Init == /\ sch \in {[c |-> s] : s \in Catalogue} /\ st = Init0(sch) /\ hist = <<>> /\ pc = 0
Do(e) == LET r == Step(sch, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
C == Len(sch.c)
O(n) == [op |-> n, o |-> 1, s |-> Len(hist) * 9 + 1, ver |-> Ver]
Get(o) == [op |-> "get", o |-> o, path |-> <<>>]
Script == <<Get(1), O("ser"), O("size"), O("rep"), O("cuts"), Get(1), O("part"), [op |-> "mm", c |-> C],
            [op |-> "mmf", c |-> C, j |-> 1], [op |-> "fix", c |-> C, j |-> 1]>>
Wrote == hist[3].res
De(d) == [op |-> "de", o |-> 2, c |-> C, d |-> d, s |-> 8 * Len(hist) + 1, ver |-> Ver]
Damage(b) == {b \o <<1>>} \cup {Put(b, j, (b[j] + 1) % 256) : j \in 1..Min2(Len(b), 5)} \cup {Put(b, j, 0) : j \in (IF Group = "S05" THEN 1..5 ELSE {1}) \cap 1..Len(b)}
Via(d) == IF Group = "S05" THEN 2 + (Len(SelectSeq(d, LAMBDA x : x = 0)) % 2) ELSE (Len(d) + d[1]) % 4      \* through which kind of stream
Export == PrintT("@@BEH " \o ToJson([sch |-> sch, ev |-> hist']))
Next ==
    /\ sch' = sch /\ pc' = pc + 1
    /\ \/ /\ pc = 0 /\ \E vs \in {v : v \in LET r == Vary(LeafVals(sch.c, C)) IN {r[j] : j \in 1..Len(r)}} :
                Do([op |-> "new", o |-> 1, c |-> C, kw |-> Args(sch.c, C, vs), pos |-> <<>>])
       \/ /\ pc \in 1..Len(Script) /\ Do(Script[pc]) /\ (pc = Len(Script) /\ Wrote.t # "bytes" => Export)
       \/ /\ pc = Len(Script) + 1 /\ Wrote.t = "bytes" /\ Do(De(Wrote.i))
       \/ /\ pc = Len(Script) + 2 /\ Do(Get(2))
       \/ /\ pc = Len(Script) + 3 /\ Do([O("ser") EXCEPT !.o = 2]) /\ Export
       \/ /\ pc = Len(Script) + 4 /\ Len(Wrote.i) <= 40 /\ \E d \in Damage(Wrote.i) :
                LET e == [De(d) EXCEPT !.s = 8 * Via(d) + 1]  r == Step(sch, Init0(sch), e) IN st' = r.st /\ hist' = <<e @@ [res |-> r.res]>>
       \/ /\ pc = Len(Script) + 5 /\ Do(Get(2))
       \/ /\ pc = Len(Script) + 6 /\ Do([O("ser") EXCEPT !.o = 2]) /\ Export
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the definitions must imply *)
Made == pc = 1
TheObj == st.o[1]
Wr == WriteObj(sch, TheObj, Ver)
RECURSIVE OptsAgree(_, _)
OptsAgree(fs, o) == fs = <<>> \/ (/\ Head(fs).k = "opt" => (Holds(Head(fs).pr, o, Ver) <=> o.k[Head(fs).x].t # "none")
                                  /\ OptsAgree(Tail(fs), o))
RtOf(b) == ReadStruct(sch, C, b, 0, Ver)
(* lengths and types taken from elsewhere need not agree with what is written *)
HasPtr == Group \in {"S10", "S13"} \/ \E j \in 1..Len(Class(sch, C).fs) : LET f == Class(sch, C).fs[j] IN
              f.k = "fld" /\ (("sz" \in DOMAIN f.m /\ f.m.sz.k = "ptr")
                               \/ f.m.k \in {"sel", "fsel"} \/ (f.m.k = "farr" /\ f.m.el.k \in {"sel", "fsel"}))
RoundTrip == (Made /\ Wr.ok /\ OptsAgree(Class(sch, C).fs, TheObj) /\ ~HasPtr) =>
    LET r == RtOf(Wr.b) IN /\ r.ok /\ r.p = Len(Wr.b)
                           /\ WriteObj(sch, r.v, Ver) = Wr
WholeRead == (Made /\ Wr.ok) => LET r == RtOf(Wr.b)  q == RtOf(Wr.b \o <<1, 2, 3>>) IN
    r.ok => (q.ok /\ q.v = r.v /\ q.p = r.p)
PrefixFails == (Made /\ Wr.ok) => LET r == RtOf(Wr.b) IN
    (r.ok /\ r.p = Len(Wr.b)) => \A j \in 0..Min2(Len(Wr.b) - 1, 40) : ~RtOf(SubSeq(Wr.b, 1, j)).ok
InBounds == (Made /\ Wr.ok) => LET b == CBounds(sch, C) IN
    /\ BigLeq(b.lo, Digits(Len(Wr.b))) /\ (b.inf \/ BigLeq(Digits(Len(Wr.b)), b.hi))
    /\ b.fx => b.lo = b.hi /\ ~b.inf
ReadInBounds == (pc > Len(Script) + 4 /\ st.o[2].t = "obj" /\ ~HasBad(st.o[2])) =>
    LET w == WriteObj(sch, st.o[2], Ver)  b == CBounds(sch, C) IN w.ok => BigLeq(b.lo, Digits(Len(w.b)))
OrderLaw == (Made /\ Wr.ok /\ Len(Class(sch, C).fs) > 1) =>
    LET fs == Class(sch, C).fs IN
    Wr.b = Concat([j \in 1..Len(fs) |-> WriteField(sch, fs[j], TheObj, VerIn(sch, C, Ver)).b])
==============================================================================
