----------------------------- MODULE StructDeclMC -----------------------------
(* Every small declaration of one kind after another, and what accepting it has to mean. *)
EXTENDS StructDecl, Json
CONSTANTS Kinds, Wide
VARIABLES kd, s, hist
vars == <<kd, s, hist>>

Num(n) == [k |-> "num", n |-> n, sg |-> FALSE, be |-> TRUE, e |-> "B"]
PStr(n, dir) == [k |-> "pstr", n |-> n, pad |-> IF dir = 0 THEN <<>> ELSE <<0>>, dir |-> dir, buf |-> dir = 0]
VStr == [k |-> "vstr", sz |-> Num(1), pad |-> <<0>>, dir |-> 1, buf |-> FALSE]
FArr(n, el) == [k |-> "farr", n |-> n, el |-> el]
VArr(el) == [k |-> "varr", sz |-> Num(1), el |-> el]
SArr(el) == [k |-> "sarr", sz |-> Num(1), el |-> el]
Map(pairs, m) == [k |-> "map", pairs |-> pairs, m |-> m]
StructOf(c) == [k |-> "struct", c |-> c]
Pad(n) == [k |-> "pad", n |-> n, ch |-> 0]
PadOf(n, len) == [k |-> "pad", n |-> n, ch |-> 32, chs |-> len]
Lf(d) == [d |-> d, c |-> FALSE]
Fld(x, m) == [k |-> "fld", x |-> x, m |-> m, plain |-> FALSE]
Plain(x, m) == [k |-> "fld", x |-> x, m |-> m, plain |-> TRUE]
Opt(x, m) == [k |-> "opt", x |-> x, m |-> m, pr |-> [k |-> "yes"]]
Anon(m) == [k |-> "anon", m |-> m]
Class0(fs, lv) == [fs |-> fs, lv |-> lv, cx |-> 0-1, init |-> [on |-> 0, ask |-> <<>>]]
Free1(n) == [j \in 1..n |-> Lf(None)]
One(fs, lv) == [c |-> <<Class0(fs, lv)>>]

(* two classes others may refer to: one whose objects all take three bytes, one whose objects do not *)
Steady == Class0(<<Fld(1, Num(1)), Fld(2, PStr(2, 1))>>, Free1(2))
Loose == Class0(<<Fld(1, VStr)>>, Free1(1))
Two(fs, lv) == [c |-> <<Steady, Loose, Class0(fs, lv)>>]

BitM(w) == [w |-> w, c |-> FALSE, v |-> None]
Seqs(S, n) == UNION {[1..j -> S] : j \in 1..n}
Bits(ws) == [k |-> "bits", s |-> [j \in 1..Len(ws) |-> [x |-> IF ws[j] = 7 THEN 0 ELSE j] @@ BitM(ws[j])]]
PBit(x, sl) == [x |-> x, c |-> FALSE, v |-> None, sl |-> sl, w |-> SliceLen(sl)]
PBits(q, nb) == [k |-> "pbits", s |-> q, nb |-> nb, n |-> CeilDiv(IF nb < 0 THEN LastOf(q) ELSE nb, 8)]

Types == {Num(1), Num(2), PStr(0, 1), PStr(2, 0), VStr, FArr(0, VStr), FArr(2, Num(1)), FArr(1, VStr), VArr(Num(1)), VArr(PStr(0, 1)),
          SArr(Num(2)), Map(<<<<IntV(5), IntV(1)>>, <<IntV(6), IntV(2)>>>>, Num(2)), StructOf(1), StructOf(2), FArr(2, StructOf(1)),
          FArr(2, StructOf(2)), FArr(2, FArr(0, StructOf(2))), VArr(FArr(0, VStr))}
Ints(n) == List([j \in 1..n |-> IntV(j)])
Raw(n) == Bytes([j \in 1..n |-> 64 + j])
LazyOf(fs) == [k |-> "lazy", fs |-> fs, n |-> 1, lv |-> [j \in 1..Len(fs) |-> j]]
Grp(fs) == [k |-> "grp", fs |-> fs]

Of(kind) ==
    CASE kind = "bits"  -> {One(<<Bits(ws)>>, Free1(3)) : ws \in Seqs(1..Wide, 3)}
                           \cup {Two(<<[k |-> "bits", s |-> <<[x |-> 1] @@ BitM(8), [x |-> 2, m |-> m] @@ BitM(8)>>]>>, Free1(2)) : m \in Types}
      [] kind = "pbits" -> {One(<<PBits(<<PBit(1, <<<<a, b>>>>)>>, nb)>>, Free1(1)) : a \in 0..7, b \in 8..Wide + 8, nb \in {0-1, 8, 12, 15, 16, 24}}
                           \cup {One(<<PBits(<<PBit(1, <<<<0, a>>, <<b, c>>>>), PBit(2, <<<<a, b>>>>)>>, nb)>>, Free1(2)) :
                                     a \in {1, 3}, b \in {5, 8}, c \in 9..Wide + 8, nb \in {0-1, 8, 16}}
                           \cup {Two(<<[k |-> "pbits", s |-> <<PBit(1, <<<<0, 8>>>>), [x |-> 2, m |-> m, sl |-> <<>>] @@ BitM(8)>>, nb |-> nb, n |-> 2]>>,
                                     Free1(2)) : m \in Types, nb \in {0-1, 16}}
      [] kind = "lazy"  -> {Two(<<LazyOf(<<Fld(1, a), Plain(2, b)>>)>>, Free1(2)) : a, b \in Types}
                           \cup {Two(<<LazyOf(<<Opt(1, a)>>)>>, Free1(1)) : a \in Types}
                           \cup {Two(<<LazyOf(<<Fld(1, Num(1)), Grp(<<Fld(2, a), Anon(Pad(2))>>)>>)>>, Free1(2)) : a \in Types}
                           \cup {Two(<<Fld(1, a), LazyOf(<<Bits(<<w, 4>>)>>)>>, Free1(2)) : a \in Types, w \in {4, 12, 5}}
      [] kind = "map"   -> {Two(<<Fld(1, Map([j \in 1..Len(vs) |-> <<IntV(100 + j), IntV(vs[j])>>], m))>>, Free1(1)) :
                                vs \in Seqs(0..2, 3), m \in {Num(1), Num(4), VStr, VArr(Num(1)), FArr(1, VStr)}}
                           \cup {Two(<<Fld(1, FArr(2, Map(<<<<IntV(1), Raw(2)>>, <<IntV(2), Bytes(<<65, x>>)>>>>, PStr(2, 0))))>>, Free1(1)) : x \in {65, 66, 67}}
      [] kind = "default" -> {One(<<f>>, <<Lf(Ints(d))>>) : f \in {Fld(1, FArr(n, Num(1))) : n \in 0..3} \cup {Plain(1, FArr(n, Num(1))) : n \in 0..3}, d \in 0..4}
                           \cup {One(<<f>>, <<Lf(Raw(d))>>) : f \in UNION {{Fld(1, PStr(n, dir)), Plain(1, PStr(n, dir))} : n \in 0..3, dir \in 0..3}, d \in 0..4}
      [] kind = "rest"  -> {One(<<Anon(PadOf(n, len))>>, <<>>) : n \in 0..2, len \in {0, 2, 3}}
                           \cup {One(<<Fld(1, FArr(2, PadOf(1, len)))>>, Free1(1)) : len \in {0, 2}}
                           \cup {Two(<<Fld(1, [k |-> "sel", key |-> Num(1), map |-> [j \in 1..Len(cs) |-> <<IntV(j), cs[j]>>], def |-> d])>>, Free1(1)) :
                                     cs \in Seqs(0..2, 3), d \in 0..2}
                           \cup {Two(<<Fld(1, [k |-> "fsel", f |-> "look", x |-> 0, n |-> 1, map |-> <<<<IntV(0), 1>>>>, def |-> 2, twice |-> FALSE,
                                               mm |-> <<a, b>>, mmtype |-> t])>>, Free1(1)) : a \in 0..3, b \in {0-1, 0, 1, 2, 3}, t \in BOOLEAN}
                           \cup {[c |-> <<Steady, [nof |-> 1] @@ Class0(<<>>, <<>>)>>]}
                           \cup {One(<<[k |-> "const", x |-> 1, m |-> Num(1), v |-> v, nom |-> 1]>>, <<[d |-> v, c |-> TRUE]>>) :
                                     v \in {IntV(0), IntV(5), Bytes(<<65>>), List(<<>>)}}
                           \cup {One(<<[k |-> "const", x |-> 1, m |-> Num(1), v |-> IntV(n), st |-> FALSE]>>, <<[d |-> IntV(n), c |-> TRUE]>>) : n \in {0, 255}}

Export == PrintT("@@BEH " \o ToJson([sch |-> 0, ev |-> hist']))
Init == kd \in Kinds /\ s = [c |-> <<>>] /\ hist = <<>>
Next == /\ hist = <<>> /\ kd' = kd
        /\ \E x \in Of(kd) : s' = x /\ hist' = <<[op |-> "declare", s |-> x, res |-> DStep(0, 0, [op |-> "declare", s |-> x]).res]>>
        /\ Export
Spec == Init /\ [][Next]_vars

(* What an accepted declaration promises, said of the values themselves. *)
RECURSIVE Some(_, _)
Some(sch, m) ==          \* values, of different sizes where there are such
    CASE m.k = "num"  -> {IntV(0), IntV(1), IntV(200)}
      [] m.k = "pstr" -> {Raw(n) : n \in IF m.dir = 0 THEN {m.n} ELSE 0..m.n}
      [] m.k = "vstr" -> {Raw(n) : n \in 0..2}
      [] m.k = "farr" -> {List(q) : q \in [1..m.n -> Some(sch, m.el)]}
      [] m.k \in {"varr", "sarr"} -> {List(q) : q \in UNION {[1..n -> Some(sch, m.el)] : n \in 0..2}}
      [] m.k = "map"  -> {m.pairs[j][1] : j \in 1..Len(m.pairs)}
      [] m.k = "struct" -> {Obj(m.c, <<v>> \o (IF m.c = 1 THEN <<w>> ELSE <<>>) \o <<None>>) :
                            v \in IF m.c = 1 THEN {IntV(0), IntV(7)} ELSE {Raw(0), Raw(2)}, w \in {Raw(0), Raw(2)}}
      [] OTHER -> {None}
Sizes(sch, m) == {Len(Write(sch, m, v, 0-1).b) : v \in {v \in Some(sch, m) : Write(sch, m, v, 0-1).ok}}
Accepted == hist # <<>> /\ hist[1].res = OK
Refused == hist # <<>> /\ hist[1].res = Err
Mine == s.c[Len(s.c)]
FieldSizes(f) == IF f.k = "opt" THEN {0} \cup Sizes(s, f.m) ELSE Sizes(s, f.m)
RECURSIVE Inner(_)
Inner(fs) == UNION {IF fs[j].k \in {"grp", "lazy"} THEN Inner(fs[j].fs) ELSE {fs[j]} : j \in 1..Len(fs)}
LazyLaw == (kd = "lazy" /\ hist # <<>>) =>
           LET fs == {f \in UNION {Inner(<<g>>) : g \in {Mine.fs[j] : j \in 1..Len(Mine.fs)} \cap {h \in {Mine.fs[j] : j \in 1..Len(Mine.fs)} : h.k = "lazy"}} :
                         f.k \in {"fld", "opt"}}
               bit == \E j \in 1..Len(Mine.fs) : Mine.fs[j].k = "lazy" /\ \E f \in Inner(Mine.fs[j].fs) : f.k = "bits" /\ BitSum(f.s) \in {9, 17}
           IN Refused <=> (bit \/ \E f \in fs : Cardinality(FieldSizes(f)) > 1)
BitsLaw == (kd = "bits" /\ Accepted) =>
           LET f == Mine.fs[1] IN \E n \in 1..100 : 8 * n = Len(BitsWrite(f.s, Obj(1, Rep(IntV(0), 3))).b)
BitsOnly == (kd = "bits" /\ Refused) =>
           LET f == Mine.fs[1] IN
           IF "m" \in DOMAIN f.s[Len(f.s)] THEN Cardinality(Sizes(s, f.s[Len(f.s)].m)) > 1
           ELSE \A n \in 1..100 : 8 * n # Len(BitsWrite(f.s, Obj(1, Rep(IntV(0), 3))).b)
PosLaw == (kd = "pbits" /\ Accepted) =>
          LET f == Mine.fs[1] IN \A j \in 1..Len(f.s) : \A i \in 1..Len(f.s[j].sl) : f.s[j].sl[i][2] <= 8 * f.n
PosBack == (kd = "pbits" /\ Accepted) =>       \* every bit of every member is kept
          LET f == Mine.fs[1]
              ones == Obj(1, [j \in 1..Len(Mine.lv) |-> V("int", <<0>> \o Rep(255, 4), <<>>)])
              bs == PBitsWrite(f.s, ones, Rep(0, 8 * f.n)).b
          IN Len(bs) = 8 * f.n /\ SumSeq(bs) = SumSeq([j \in 1..Len(f.s) |-> SliceLen(f.s[j].sl)])
MapLaw == (kd = "map" /\ hist # <<>> /\ (IF hist = <<>> THEN FALSE ELSE Mine.fs[1].m.k = "map")) =>
          LET m == Mine.fs[1].m
              back(k) == LET w == Write(s, m, k, 0-1)  r == Read(s, m, w.b, 0, None, 0-1) IN w.ok /\ r.ok /\ r.v = k
              keys == {m.pairs[j][1] : j \in 1..Len(m.pairs)}
          IN IF m.m.k = "num" THEN Accepted <=> (\A k \in keys : back(k)) ELSE Refused
DefaultLaw == (kd = "default" /\ hist # <<>>) =>
          LET f == Mine.fs[1]  d == Mine.lv[1].d IN
          IF f.plain THEN Accepted ELSE Accepted <=> Write(s, f.m, d, 0-1).ok
==============================================================================
