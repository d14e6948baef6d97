-------------------------------- MODULE BufferMC --------------------------------
(* Catalogues of small buffer classes: every class of the chosen catalogue and every choice of its field *)
(* values, measured, packed twice, unpacked, cut at every byte, followed by more input, and damaged.     *)
EXTENDS Buffer, Json
CONSTANTS Group,      \* which catalogue
          Deep      \* more of it
VARIABLES sch, st, hist, pc
vars == <<sch, st, hist, pc>>

\* types
IntT(sz, sg, be) == [k |-> "int", sz |-> sz, sg |-> sg, be |-> be]
U == IntT(0-1, FALSE, FALSE)
U8 == IntT(8, FALSE, FALSE)
Flt(sz, be) == [k |-> "flt", sz |-> sz, be |-> be]
StrT(enc, pad, strip, just) == [k |-> "str", enc |-> enc, pad |-> pad, strip |-> strip, just |-> just]
S0 == StrT("ascii", 32, <<0>>, 0)
StrE(sz, pad, just) == [k |-> "str", enc |-> "ascii", pad |-> pad, strip |-> <<0>>, just |-> just, sz |-> sz]
Js == [k |-> "json"]
Ba == [k |-> "ba"]
NoK == [k |-> "no"]
Buf(c) == [k |-> "buf", c |-> c, sel |-> NoK]
BufS(c, sel) == [k |-> "buf", c |-> c, sel |-> sel]
Lst(el, n) == [k |-> "list", el |-> el, n |-> n, sel |-> NoK]
LstS(el, n, sel) == [k |-> "list", el |-> el, n |-> n, sel |-> sel]
Cnt(e) == [k |-> "e", e |-> e]
Sel(f, ki, kb, ch) == [k |-> "sel", f |-> f, ki |-> ki, kb |-> kb, ch |-> ch]
Cl(c) == [k |-> "cls", c |-> c]
Nil == [k |-> "none"]
Pair(n) == [k |-> "pair", n |-> n]
\* numeric expressions; fields are direct references (0) or by name (1)
N(n) == [k |-> "c", n |-> n]
Fd(f, d) == [k |-> "fld", f |-> f, self |-> d]
Ln(f, d) == [k |-> "len", f |-> f, self |-> d]
Cp(f, d) == [k |-> "copy", f |-> f, self |-> d]
Af(f) == [k |-> "after", f |-> f]
Tot == [k |-> "total"]
InL == [k |-> "inlen"]
XA == [k |-> "x"]
MF(n) == [k |-> "mf", n |-> n]
Op(o, a, b) == [k |-> "op", o |-> o, a |-> a, b |-> b]
Plus(a, n) == IF a.k = "c" THEN N(a.n + n) ELSE IF n = 0 THEN a ELSE Op("add", a, N(n))
PlusE(a, e) == IF a.k = "c" /\ a.n = 0 THEN e ELSE Op("add", a, e)
MinE(l) == [k |-> "min", l |-> l]
MaxE(l) == [k |-> "max", l |-> l]
\* positions
Ix1(n) == [k |-> "ix", n |-> n]
Sl(lo, hi) == [k |-> "sl", lo |-> lo, hi |-> hi]
From(lo) == [k |-> "sl", lo |-> lo, hi |-> NoK]
Upto(hi) == [k |-> "sl", lo |-> NoK, hi |-> hi]
By(a, b) == Sl(N(a), N(b))
LstP(l) == [k |-> "lst", l |-> l, via |-> 0]
AddP(a, b) == [k |-> "add", a |-> a, b |-> b]
Bits(p, key) == [k |-> "bits", p |-> p, key |-> key]
KS(lo, hi) == [k |-> "sl", lo |-> lo, hi |-> hi]
KL(l) == [k |-> "lst", l |-> l]
\* fields with the values they are given
Same == [k |-> "same"]
Yes == [k |-> "yes"]
F(n, ty, p, vs) == [f |-> [n |-> n, ty |-> ty, p |-> p, pu |-> Same, sbp |-> NoK, sau |-> NoK, pif |-> Yes, uif |-> Yes, ua |-> <<>>, d |-> None], v |-> vs]
SetRef(x, e) == [x EXCEPT !.f.sbp = [k |-> "ref", e |-> e]]
SetConst(x, v) == [x EXCEPT !.f.sbp = [k |-> "const", v |-> v]]
SetFn(x, g, f, n) == [x EXCEPT !.f.sbp = [k |-> "fn", g |-> g, f |-> f, n |-> n]]
SauRef(x, e) == [x EXCEPT !.f.sau = [k |-> "ref", e |-> e]]
SauFn(x, g) == [x EXCEPT !.f.sau = [k |-> "fn", g |-> g]]
If(x, q) == [x EXCEPT !.f.pif = q, !.f.uif = q]
Unp(x, p) == [x EXCEPT !.f.pu = p]
Dfl(x, v) == [x EXCEPT !.f.d = v]
After(x, l) == [x EXCEPT !.f.ua = l]
When(e) == [k |-> "e", e |-> e]
Flagged(n) == [k |-> "const", n |-> n]
Cls(fvs, size, base) == [fs |-> [j \in 1..Len(fvs) |-> fvs[j].f], size |-> size, base |-> base]
Case(pre, fvs, size) == [c |-> Append(pre, Cls(fvs, size, <<>>)), v |-> [j \in 1..Len(fvs) |-> fvs[j].v]]
Plain(fvs) == Case(<<>>, fvs, 0-1)

\* values, the good ones first
Pow2(w) == Rep(0, w \div 8) \o <<2 ^ (w % 8)>>
Ones(w) == Rep(255, w \div 8) \o (IF w % 8 = 0 THEN <<>> ELSE <<2 ^ (w % 8) - 1>>)
UVals(w) == <<IntV(1), IntV(0), BigV(0, Ones(w)), BigV(0, Pow2(w - 1)), BigV(0, Pow2(w)), IntV(0-1)>>
SVals(w) == <<IntV(0-1), IntV(0), IntV(1), BigV(0, Ones(w - 1)), BigV(1, Pow2(w - 1)), BigV(0, Pow2(w - 1)),
              BigV(1, IF w = 8 THEN <<129>> ELSE <<1>> \o Rep(0, w \div 8 - 2) \o <<128>>)>>
IntVals(ty, w) == IF ty.sg /\ w \in StructSizes THEN SVals(w) ELSE UVals(w)
Fl(b) == V("float", b, <<>>)
FltVals == <<Fl(<<63, 248, 0, 0, 0, 0, 0, 0>>), Fl(Rep(0, 8)), Fl(<<128, 0, 0, 0, 0, 0, 0, 0>>), Fl(<<63, 185, 153, 153, 153, 153, 153, 154>>),
             Fl(<<127, 240, 0, 0, 0, 0, 0, 0>>), Fl(<<54, 160, 0, 0, 0, 0, 0, 0>>), Fl(<<54, 144, 0, 0, 0, 0, 0, 1>>), Fl(<<71, 239, 255, 255, 224, 0, 0, 0>>),
             Fl(<<71, 239, 255, 255, 240, 0, 0, 0>>), Fl(<<127, 239, 255, 255, 255, 255, 255, 255>>), Fl(<<0, 0, 0, 0, 0, 0, 0, 1>>), IntV(3)>>
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN <<<<>>>> ELSE LET r == Strings(A, n - 1) IN
                 r \o Concat([a \in 1..Len(A) |-> [j \in 1..Len(SelectSeq(r, LAMBDA s : Len(s) = n - 1)) |->
                                Append(SelectSeq(r, LAMBDA s : Len(s) = n - 1)[j], A[a])]])
Some(s, n) == Take(s, n)
StrsOver(A, n) == LET s == Strings(A, n) IN <<Str(Rep(97, n))>> \o [j \in 1..Len(s) |-> Str(s[j])]
ByteVals(n) == <<Bytes([j \in 1..n |-> j]), Bytes(Rep(0, n)), Bytes([j \in 1..n + 1 |-> 255]), Bytes(Rep(7, n - 1)), None>>
VarBytes == <<Bytes(<<1, 2>>), Bytes(<<>>), Bytes(<<3>>), Bytes(<<0, 0, 255, 7, 1>>)>>
VarStrs == <<Str(<<97, 98>>), Str(<<>>), Str(<<98>>), Str(<<97, 32, 97, 97, 98>>)>>
JsonVals == <<IntV(5), None, List(<<>>), Str(<<34, 92>>), List(<<IntV(1), None>>), V("dict", <<>>, <<Str(<<97>>), IntV(0-1)>>), Str(<<233>>), V("dict", <<>>, <<>>), IntV(0-12)>>
(* values that differ in one place from the first of each *)
RECURSIVE Vary(_)
Vary(vs) == IF vs = <<>> THEN <<<<>>>>
            ELSE LET r == Vary(Tail(vs))  h == Head(vs) IN
                 [j \in 1..Len(r) |-> <<h[1]>> \o r[j]] \o [j \in 1..Len(h) - 1 |-> <<h[j + 1]>> \o r[1]]

------------------------------------------------------------------------------
\* classes used inside others: two bytes; a length and as many bytes; one byte with a default
In1 == Cls(<<F(1, U8, Ix1(N(0)), <<>>), F(2, U8, Ix1(N(1)), <<>>)>>, 0-1, <<>>)
In2 == Cls(<<SetRef(F(1, U8, Ix1(N(0)), <<>>), Ln(2, 1)), F(2, Ba, Sl(N(1), PlusE(N(1), Fd(1, 0))), <<>>)>>, 0-1, <<>>)
In3 == Cls(<<Dfl(F(1, U8, Ix1(N(0)), <<>>), IntV(6))>>, 0-1, <<>>)
Three == <<In1, In2, In3>>
O1(a, b) == Obj(1, <<IntV(a), IntV(b)>>)
O2(s) == Obj(2, <<None, Bytes(s)>>)
O3(a) == Obj(3, <<IntV(a)>>)
U8s == <<IntV(1), IntV(0), IntV(255), IntV(256)>>
\* all orders of three names
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}

\* kinds of fields, starting at an expression: [fv, next]; names n and n + 1
KNames == {"u16", "i32", "flt", "bits", "rbits", "str", "json", "ba", "buf", "list", "lbuf", "const", "lstr", "lba", "llist", "lcnt", "cond", "sel", "split", "nibs", "fixp", "fba", "fnum"}
Kn(kn, n, at) ==
    CASE kn = "u16"  -> [fv |-> <<F(n, IntT(0-1, FALSE, FALSE), Sl(at, Plus(at, 2)), UVals(16))>>, next |-> Plus(at, 2)]
      [] kn = "i32"  -> [fv |-> <<F(n, IntT(0-1, TRUE, TRUE), Sl(at, Plus(at, 4)), SVals(32))>>, next |-> Plus(at, 4)]
      [] kn = "flt"  -> [fv |-> <<F(n, Flt(0-1, TRUE), Sl(at, Plus(at, 4)), FltVals)>>, next |-> Plus(at, 4)]
      [] kn = "bits" -> [fv |-> <<F(n, U, Bits(Ix1(at), KS(0, 3)), UVals(3)), F(n + 1, U, Bits(Ix1(at), KS(3, 8)), UVals(5))>>, next |-> Plus(at, 1)]
      [] kn = "rbits" -> [fv |-> <<F(n, U, Bits(Sl(at, Plus(at, 2)), KL(<<KS(5, 9), KS(0, 3)>>)), UVals(7)),
                                   F(n + 1, U, AddP(Bits(Sl(at, Plus(at, 2)), KS(9, 16)), Bits(Sl(at, Plus(at, 2)), KS(3, 5))), UVals(9))>>, next |-> Plus(at, 2)]
      [] kn = "split" -> [fv |-> <<F(n, IntT(0-1, FALSE, TRUE), LstP(<<Ix1(Plus(at, 2)), Ix1(at)>>), UVals(16)), F(n + 1, U, Ix1(Plus(at, 1)), UVals(8))>>, next |-> Af(n)]
      [] kn = "nibs" -> [fv |-> <<F(n, Lst(IntT(4, FALSE, FALSE), NoK), Sl(at, Plus(at, 1)), <<List(<<IntV(9), IntV(6)>>), List(<<IntV(0), IntV(16)>>), List(<<IntV(1)>>)>>),
                                  F(n + 1, Lst(IntT(12, FALSE, TRUE), Cnt(N(2))), Sl(Plus(at, 1), Plus(at, 4)), <<List(<<IntV(291), IntV(4095)>>), List(<<IntV(2048), IntV(1)>>)>>)>>, next |-> Plus(at, 4)]
      [] kn = "fba"  -> [fv |-> <<F(n, Ba, Bits(Sl(at, Plus(at, 3)), KS(4, 17)), <<Bytes(<<171, 1>>), Bytes(<<0, 0>>), Bytes(<<7>>)>>)>>, next |-> Plus(at, 3)]
      [] kn = "fnum" -> [fv |-> <<F(n, IntT(0-1, TRUE, TRUE), Bits(Sl(at, Plus(at, 3)), KS(4, 20)), SVals(16)), F(n + 1, U, Bits(Ix1(at), KS(0, 4)), UVals(4))>>, next |-> Plus(at, 3)]
      [] kn = "fixp" -> [fv |-> <<SetRef(F(n, U, Ix1(at), <<None>>), Ln(n + 1, 0)),
                                  Unp(F(n + 1, Ba, Sl(Plus(at, 1), Plus(at, 3)), ByteVals(2)), Sl(Plus(at, 1), Op("add", Plus(at, 1), Fd(n, 0))))>>, next |-> Plus(at, 3)]
      [] kn = "str"  -> [fv |-> <<F(n, S0, Sl(at, Plus(at, 3)), <<Str(<<97, 98>>), Str(<<>>), Str(<<97, 32, 98>>), Str(<<97, 98, 99, 100>>), Str(<<233>>)>>)>>, next |-> Plus(at, 3)]
      [] kn = "json" -> [fv |-> <<F(n, Js, Sl(at, Plus(at, 9)), JsonVals)>>, next |-> Plus(at, 9)]
      [] kn = "ba"   -> [fv |-> <<F(n, Ba, Sl(at, Plus(at, 2)), ByteVals(2))>>, next |-> Plus(at, 2)]
      [] kn = "buf"  -> [fv |-> <<F(n, Buf(1), Sl(at, Plus(at, 2)), <<O1(1, 2), O1(0, 255), O1(0, 256), None>>)>>, next |-> Plus(at, 2)]
      [] kn = "list" -> [fv |-> <<F(n, Lst(IntT(16, TRUE, TRUE), NoK), Sl(at, Plus(at, 4)), <<List(<<IntV(0-1), IntV(2)>>), List(<<IntV(7), IntV(40000)>>), List(<<IntV(7)>>)>>)>>, next |-> Plus(at, 4)]
      [] kn = "lbuf" -> [fv |-> <<F(n, Lst(Buf(1), Cnt(N(2))), Sl(at, Plus(at, 4)), <<List(<<O1(1, 2), O1(3, 4)>>), List(<<O1(1, 2), O1(0-3, 4)>>), List(<<O1(1, 1)>>)>>)>>, next |-> Plus(at, 4)]
      [] kn = "const" -> [fv |-> <<SetConst(F(n, U, Ix1(at), <<IntV(9), None>>), IntV(66))>>, next |-> Plus(at, 1)]
      [] kn = "lstr" -> [fv |-> <<SetRef(F(n, U, Ix1(at), <<None, IntV(9)>>), Ln(n + 1, 1)), F(n + 1, S0, Sl(Plus(at, 1), Op("add", Plus(at, 1), Fd(n, 0))), VarStrs)>>, next |-> Af(n + 1)]
      [] kn = "lba"  -> [fv |-> <<F(n, Ba, Sl(Plus(at, 1), Op("add", Plus(at, 1), Fd(n + 1, 1))), VarBytes), SetFn(F(n + 1, U, Ix1(at), <<None>>), "len", n, 0)>>, next |-> Op("add", Plus(at, 1), Fd(n + 1, 0))]
      [] kn = "llist" -> [fv |-> <<SetRef(F(n, U, Ix1(at), <<None>>), Op("mul", Ln(n + 1, 0), N(2))),
                                   F(n + 1, Lst(IntT(16, FALSE, FALSE), NoK), Sl(Plus(at, 1), Op("add", Plus(at, 1), Fd(n, 1))), <<List(<<IntV(1), IntV(515)>>), List(<<>>), List(<<IntV(65536)>>)>>)>>, next |-> Af(n + 1)]
      [] kn = "lcnt" -> [fv |-> <<SetRef(F(n, U, Ix1(at), <<None>>), Ln(n + 1, 0)),
                                  F(n + 1, Lst(Buf(2), Cnt(Fd(n, 1))), From(Plus(at, 1)), <<List(<<O2(<<5>>), O2(<<>>)>>), List(<<>>), List(<<O2(<<1, 2, 3>>)>>)>>)>>, next |-> Af(n + 1)]
      [] kn = "cond" -> [fv |-> <<F(n, U, Ix1(at), <<IntV(1), IntV(0), IntV(2)>>), If(F(n + 1, U, Sl(Plus(at, 1), Plus(at, 3)), <<IntV(258), None, IntV(65536)>>), When(Op("eq", Fd(n, 0), N(1))))>>, next |-> Plus(at, 3)]
      [] kn = "sel"  -> [fv |-> <<F(n, U, Ix1(at), <<IntV(0), IntV(1), IntV(2), IntV(3)>>),
                                  After(F(n + 1, BufS(1, Sel(n, 0, 0, <<Cl(1), Cl(2), Cl(3)>>)), From(Plus(at, 1)), <<O1(7, 8), O2(<<4>>), O3(5), None>>), <<n>>)>>, next |-> Af(n + 1)]
(* the first kinds of fields ks, one after another from e on *)
RECURSIVE Row(_, _, _)
Row(ks, n, at) == IF ks = <<>> THEN <<>> ELSE LET k == Kn(Head(ks), n, at) IN k.fv \o Row(Tail(ks), n + 2, k.next)
Few(fvs, w) == [j \in 1..Len(fvs) |-> [fvs[j] EXCEPT !.v = Some(@, w)]]
(* the fields in the other order of names: what is declared first is named last *)
Flip(f, m) == m - f
RECURSIVE Ren(_, _)
RenS(s, m) == [j \in 1..Len(s) |-> Ren(s[j], m)]
Ren(e, m) ==
    CASE e.k \in {"fld", "len", "copy", "after"} -> [e EXCEPT !.f = Flip(@, m)]
      [] e.k = "op" -> [e EXCEPT !.a = Ren(@, m), !.b = Ren(@, m)]
      [] e.k \in {"sl"} -> [e EXCEPT !.lo = Ren(@, m), !.hi = Ren(@, m)]
      [] e.k = "ix" -> [e EXCEPT !.n = Ren(@, m)]
      [] e.k = "lst" -> [e EXCEPT !.l = RenS(@, m)]
      [] e.k = "add" -> [e EXCEPT !.a = Ren(@, m), !.b = Ren(@, m)]
      [] e.k = "bits" -> [e EXCEPT !.p = Ren(@, m)]
      [] e.k = "ref" -> [e EXCEPT !.e = Ren(@, m)]
      [] e.k = "e" -> [e EXCEPT !.e = Ren(@, m)]
      [] e.k = "fn" -> IF "f" \in DOMAIN e THEN [e EXCEPT !.f = IF @ = 0 THEN 0 ELSE Flip(@, m)] ELSE e
      [] e.k = "list" -> [e EXCEPT !.n = Ren(@, m), !.sel = Ren(@, m)]
      [] e.k = "buf" -> [e EXCEPT !.sel = Ren(@, m)]
      [] e.k = "sel" -> [e EXCEPT !.f = Flip(@, m)]
      [] e.k \in {"min", "max"} -> [e EXCEPT !.l = RenS(@, m)]
      [] OTHER -> e
RenF(x, m) == [x EXCEPT !.f = [n |-> Flip(@.n, m), ty |-> Ren(@.ty, m), p |-> Ren(@.p, m), pu |-> Ren(@.pu, m), sbp |-> Ren(@.sbp, m),
                               sau |-> Ren(@.sau, m), pif |-> Ren(@.pif, m), uif |-> Ren(@.uif, m), ua |-> [j \in 1..Len(@.ua) |-> Flip(@.ua[j], m)], d |-> @.d]]
Back(fvs) == [j \in 1..Len(fvs) |-> RenF(fvs[j], 50)]

------------------------------------------------------------------------------
\* catalogues
Ends(x) == x.f.n
B01 == {Plain(<<F(1, U, Ix1(N(0)), <<IntV(165), IntV(90)>>), F(2, IntT(d, sg, be), By(1, 1 + w \div 8), IntVals(IntT(d, sg, be), w)),
                F(3, U, Ix1(N(1 + w \div 8)), <<IntV(195), IntV(60)>>)>>) :
        w \in {8, 16, 24, 32, 40, 64} \cup (IF Deep THEN {48, 56, 72, 80} ELSE {}), sg \in BOOLEAN, be \in BOOLEAN, d \in {0-1}}
       \cup {Plain(<<F(2, IntT(w, sg, be), By(1, 1 + w \div 8), IntVals(IntT(w, sg, be), w)), F(1, U, Ix1(N(0)), <<IntV(165), IntV(90)>>)>>) :
             w \in {8, 16, 32, 64}, sg \in BOOLEAN, be \in BOOLEAN}
       \cup {Plain(<<F(1, U, Bits(By(0, 3), KS(0, a)), <<IntV(0), BigV(0, Ones(a))>>), F(2, IntT(0-1, sg, be), Bits(By(0, 3), KS(a, a + w)), IntVals(IntT(0-1, sg, be), w)),
                     F(3, U, Bits(By(0, 3), KS(a + w, 24)), <<IntV(0), BigV(0, Ones(24 - a - w))>>)>>) :
             a \in {1, 3, 7, 8} , w \in {1, 2, 5, 7, 8, 9, 11, 15}, sg \in BOOLEAN, be \in {FALSE}}
       \cup {Plain(<<F(1, U, Ix1(N(0)), <<IntV(165)>>), F(2, Flt(d, be), By(1, 1 + n), FltVals)>>) : n \in {4, 8}, be \in BOOLEAN, d \in {0-1}}
       \cup {Plain(<<F(2, Flt(8 * n, be), By(0, n), FltVals), F(1, U, Bits(Ix1(N(n)), KS(3, 5)), UVals(2))>>) : n \in {4, 8}, be \in BOOLEAN}
B02Pos == UNION {{<<Bits(By(0, 2), KS(a, b)), AddP(Bits(By(0, 2), KS(b, 16)), Bits(By(0, 2), KS(0, a))), b - a, 16 - b + a>>,
                  <<Bits(LstP(<<Ix1(N(1)), Ix1(N(0))>>), KS(a, b)), Bits(LstP(<<Ix1(N(1)), Ix1(N(0))>>), KL(<<KS(b, 16), KS(0, a)>>)), b - a, 16 - b + a>>,
                  <<Bits(By(1, 3), KL(<<KS(b, 0-1), KS(0-1, a)>>)), Bits(By(1, 3), KS(a, b - 1)), 16 - b + a, b - 1 - a>>} :
                 a \in {1, 4, 7}, b \in {9, 12, 15}}
B02Byte == {<<LstP(<<Ix1(N(3)), Ix1(N(0))>>), By(1, 3)>>, <<AddP(By(2, 3), By(0, 1)), Ix1(N(1))>>, <<LstP(<<By(1, 3), Ix1(N(4))>>), Ix1(N(0))>>,
            <<AddP(Ix1(N(4)), LstP(<<Ix1(N(2)), Ix1(N(0))>>)), LstP(<<Ix1(N(3)), Ix1(N(1))>>)>>, <<By(4, 6), By(1, 2)>>, <<Upto(N(2)), By(5, 6)>>}
Wd(p) == TotalLen(StaticPos(<<>>, p).v)
Sizes(n) == {0-1, 8 * n, 8 * n + 16, 8 * n + 4, 8 * n - 8}
B02 == {Case(<<>>, <<F(n, IntT(0-1, FALSE, be), q[1], UVals(q[3])), F(3 - n, U, q[2], UVals(q[4]))>>, 0-1) : q \in B02Pos, n \in {1, 2}, be \in {FALSE}}
       \cup UNION {{Case(<<>>, <<F(1, IntT(0-1, FALSE, be), q[1], UVals(Wd(q[1]))), F(2, Ba, q[2], ByteVals(Wd(q[2]) \div 8))>>, s) :
                    s \in Sizes(Max2(MaxStop(StaticPos(<<>>, q[1]).v), MaxStop(StaticPos(<<>>, q[2]).v)) \div 8), be \in BOOLEAN} : q \in B02Byte}
       \cup {Case(<<>>, <<F(1, U, Bits(Ix1(N(1)), KS(2, 5)), UVals(3))>>, s) : s \in {0-1, 8, 13, 16, 20}}
       \cup {Case(<<>>, <<>>, s) : s \in {0-1, 8, 24}}
Simple == {"u16", "i32", "flt", "ba", "str", "json", "const", "fba", "fnum", "buf", "fixp"}
B03 == UNION {{Case(Three, Few(Row(<<a, b>>, 1, N(0)), IF Deep THEN 6 ELSE 2), 0-1) : b \in IF Deep \/ ~a \in Simple THEN KNames ELSE (KNames \ Simple) \cup {a}} : a \in KNames}
       \cup {Case(Three, Back(Few(Row(<<a, b>>, 1, N(1)), 2)), 0-1) : a, b \in IF Deep THEN KNames ELSE {"bits", "lstr", "lcnt", "cond", "sel", "split"}}
       \cup (IF Deep THEN {Case(Three, Few(Row(<<a, b, c>>, 1, N(0)), 2), 0-1) : a, b, c \in {"rbits", "str", "lbuf", "lstr", "lcnt", "cond", "sel", "split"}} ELSE {})
\* fields that only come last
Opens(n, at) == {<<F(n, Ba, From(at), VarBytes)>>, <<F(n, S0, From(at), VarStrs)>>, <<F(n, Lst(U8, NoK), From(at), <<List(<<IntV(1), IntV(2)>>), List(<<>>)>>)>>,
                 <<F(n, Lst(Buf(2), NoK), From(at), <<List(<<O2(<<1>>), O2(<<>>)>>), List(<<>>)>>)>>, <<F(n, Buf(2), From(at), <<O2(<<>>), O2(<<1, 2>>)>>)>>,
                 <<F(n, Ba, AddP(Sl(at, Plus(at, 1)), From(Plus(at, 2))), <<Bytes(<<1, 2, 3>>), Bytes(<<1>>), Bytes(<<>>)>>)>>}
RowEnd(ks, n, at) == LET RECURSIVE G(_, _, _)
                         G(s, m, e) == IF s = <<>> THEN e ELSE G(Tail(s), m + 2, Kn(Head(s), m, e).next) IN G(ks, n, at)
Derived(fs, gs, size) ==      \* a class with fields gs and a base with fields fs
    [c |-> Three \o <<Cls(fs, 0-1, <<>>), Cls(gs \o fs, size, <<4>>)>>, v |-> [j \in 1..Len(gs \o fs) |-> (gs \o fs)[j].v]]
B04 == UNION {{Case(Three, Few(Row(<<a>>, 1, N(0)), 3) \o w, 0-1) : w \in Opens(9, RowEnd(<<a>>, 1, N(0)))} :
              a \in (KNames \ {"cond"}) \cap (IF Deep THEN KNames ELSE {"u16", "bits", "lstr", "lba", "lcnt", "sel", "buf", "split", "fixp", "fba"})}
       \cup {Case(Three, Few(Row(<<"cond">>, 1, N(0)), 3), s) : s \in {0-1, 24, 40}}
       \cup {Case(Three, Few(Row(<<a, "lstr">>, 1, N(2)), 3), s) : a \in KNames, s \in {0-1} \cup (IF Deep THEN {160, 164} ELSE {160})}
       \cup {Derived(Few(Row(<<a>>, 1, N(1)), 2), Few(Row(<<b>>, 11, RowEnd(<<a>>, 1, N(1))), 2), s) :
             a \in {"u16", "bits", "lstr", "str"}, b \in {"u16", "split", "lcnt"}, s \in {0-1, 64}}
Direct == {0, 1}
B05 == UNION {
        \* a number computed from another, computed from a third
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None, IntV(9)>>), Op(o, Fd(p[2], d), N(2))), SetRef(F(p[2], U, Ix1(N(1)), <<IntV(3), None>>), Op("add", Fd(p[3], d), N(1))),
                 F(p[3], U, Ix1(N(2)), <<IntV(4), IntV(0), IntV(127), IntV(254)>>)>>) : o \in {"add", "sub", "mul", "floordiv", "le", "gt", "eq"}} \cup
        \* lengths, ends, the total size, copies
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None>>), e), F(p[2], S0, By(1, 3), <<Str(<<97, 98>>), Str(<<97>>), Str(<<>>)>>), F(p[3], Ba, Sl(N(3), N(5)), ByteVals(2))>>) :
           e \in {Ln(p[2], d), Ln(p[3], d), Tot, Af(p[2]), MaxE(<<Ln(p[2], d), N(1)>>), MinE(<<Ln(p[3], d), N(2)>>), Op("sub", Tot, Ln(p[2], d)), [k |-> "neg", a |-> Op("sub", N(0), Ln(p[2], d))]}} \cup
        {Plain(<<SetRef(F(p[1], S0, By(0, 3), <<Str(<<120>>)>>), Cp(p[2], d)), F(p[2], S0, By(3, 5), <<Str(<<97, 98>>), Str(<<>>)>>), SetRef(F(p[3], U, Ix1(N(5)), <<None>>), Ln(p[1], d))>>)} \cup
        \* functions of the object, constants
        {Plain(<<SetFn(F(p[1], U, Ix1(N(0)), <<None, IntV(4)>>), g, p[2], 2), F(p[2], Ba, By(1, 3), ByteVals(2)), SetConst(F(p[3], U, Ix1(N(4)), <<None, IntV(7)>>), IntV(255))>>) : g \in {"len", "const", "x"}} \cup
        {Plain(<<SetFn(F(p[1], U, Ix1(N(0)), <<None>>), "val", p[2], 1), F(p[2], U, Ix1(N(1)), U8s), SetRef(F(p[3], U, Ix1(N(2)), <<None>>), Op("add", Fd(p[1], d), Fd(p[2], d)))>>)} \cup
        \* transformations
        {Plain(<<SauFn(F(p[1], U, Ix1(N(0)), U8s), "dbl"), SauRef(F(p[2], U, Ix1(N(1)), U8s), e), SauFn(F(p[3], S0, By(2, 4), <<Str(<<97, 98>>), Str(<<97>>)>>), g)>>) :
           g \in {"rev", "wrap"}, e \in {Fd(p[1], 1), Cp(p[3], 1), InL, Tot, Op("mul", Fd(p[1], 1), N(3)), Ln(p[3], 1)}} \cup
        \* cycles
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<IntV(1)>>), Fd(p[2], 1)), SetRef(F(p[2], U, Ix1(N(1)), <<IntV(2)>>), Op("add", Fd(p[1], 1), N(1))), F(p[3], U, Ix1(N(2)), U8s)>>),
         Plain(<<SauRef(F(p[1], U, Ix1(N(0)), <<IntV(1)>>), Fd(p[2], 1)), SauRef(F(p[2], U, Ix1(N(1)), <<IntV(2)>>), Fd(p[1], 1)), F(p[3], U, Ix1(N(2)), <<IntV(3)>>)>>)}
        : p \in IF Deep THEN Perms ELSE {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 2, 1>>}, d \in Direct}
B06 == UNION {
        \* a length, that many bytes, and a number after them; or as many as the field says less or more
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None>>), Plus(Ln(p[2], d), x)), F(p[2], ty, Sl(N(1), Op("sub", Plus(Fd(p[1], d), 1), N(x))), IF ty = Ba THEN VarBytes ELSE VarStrs),
                 F(p[3], IntT(0-1, FALSE, TRUE), Sl(nx, Plus(nx, 2)), <<IntV(513)>>)>>) :
            ty \in {Ba, S0}, x \in {0, 1}, nx \in {Af(p[2])}} \cup
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None>>), Plus(Ln(p[2], d), x)), F(p[2], Ba, Sl(N(1), Op("sub", Plus(Fd(p[1], d), 1), N(x))), VarBytes),
                 F(p[3], IntT(0-1, FALSE, TRUE), Sl(Op("sub", Plus(Fd(p[1], d), 1), N(x)), Op("sub", Plus(Fd(p[1], d), 3), N(x))), <<IntV(513)>>)>>) : x \in {0, 1}} \cup
        \* two of varying length
        {Plain(<<SetRef(F(p[1], U, Bits(Ix1(N(0)), KS(0, 3)), <<None>>), Ln(p[2], d)), SetRef(F(9, U, Bits(Ix1(N(0)), KS(4, 8)), <<None>>), Ln(p[3], d)),
                 F(p[2], Ba, Sl(N(1), Op("add", N(1), Fd(p[1], d))), VarBytes), F(p[3], S0, Sl(Af(p[2]), Op("add", Af(p[2]), Fd(9, d))), VarStrs)>>)} \cup
        \* the longer and the shorter
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None>>), Ln(p[2], d)), F(p[2], Ba, Sl(N(1), Plus(Fd(p[1], d), 1)), VarBytes), F(p[3], U, Ix1(MaxE(<<Af(p[2]), N(3)>>)), <<IntV(9)>>)>>),
         Plain(<<F(p[1], U, Ix1(N(0)), <<IntV(2), IntV(1), IntV(5), IntV(0)>>), F(p[2], Ba, Sl(N(1), MinE(<<Plus(Fd(p[1], d), 1), N(4)>>)), <<Bytes(<<1, 2>>), Bytes(<<1, 2, 3>>)>>),
                 F(p[3], U, Ix1(MinE(<<Plus(Fd(p[1], d), 1), N(4)>>)), <<IntV(9)>>)>>)} \cup
        \* up to the total size, the end of the input, or less
        {Plain(<<SetRef(F(p[1], U, Ix1(N(0)), <<None>>), Tot), Unp(F(p[2], ty, From(N(1)), IF ty = Ba THEN VarBytes ELSE VarStrs), Sl(N(1), Fd(p[1], d)))>>) : ty \in {Ba, S0}} \cup
        {Plain(<<Unp(F(p[1], ty, From(N(0)), IF ty = Ba THEN VarBytes ELSE VarStrs), Upto(Op("sub", InL, N(2)))), F(p[2], U, Sl(Af(p[1]), Plus(Af(p[1]), 2)), <<IntV(772)>>)>>) : ty \in {Ba, S0}} \cup
        \* a pointer, to a byte or to two
        {Plain(<<F(p[1], U, Ix1(N(0)), <<IntV(3), IntV(1), IntV(2), IntV(7)>>), F(p[2], IntT(0-1, FALSE, be), Sl(Fd(p[1], d), Plus(Fd(p[1], d), 2)), <<IntV(258), IntV(65535)>>)>>) : be \in BOOLEAN} \cup
        {Plain(<<F(p[1], U, Ix1(N(0)), <<IntV(3), IntV(1), IntV(4)>>), F(p[2], U, LstP(<<Ix1(Fd(p[1], d)), Ix1(Plus(Fd(p[1], d), 2))>>), <<IntV(258)>>), F(p[3], U, Ix1(Plus(Fd(p[1], d), 1)), <<IntV(5)>>)>>)} \cup
        \* a plain attribute and a function of the object
        {Plain(<<F(p[1], Ba, Sl(N(0), e), <<Bytes(<<1, 2, 3>>), Bytes(<<1, 2, 3, 4, 5>>), Bytes(<<1>>)>>), F(p[2], U, Ix1(e), <<IntV(9)>>)>>) : e \in {XA, MF(1)}} \cup
        \* what is open takes the rest
        {Case(Three, <<F(p[1], U, Ix1(N(0)), <<IntV(1)>>)>> \o Row(<<"lba">>, 11, N(1)) \o w, 0-1) : w \in Opens(p[2], RowEnd(<<"lba">>, 11, N(1)))}
        : p \in IF Deep THEN Perms ELSE {<<1, 2, 3>>, <<3, 1, 2>>}, d \in Direct}
Conds(f, d) == {Flagged(0), Flagged(1), When(Fd(f, d)), When(Op("eq", Fd(f, d), N(1))), When(Op("ne", Fd(f, d), N(1))), When(Op("ge", Fd(f, d), N(2))), When(Op("lt", N(0), Fd(f, d))), When(XA), When(MF(0 - 3))}
B07Row(kn, q) == <<F(1, U, Ix1(N(0)), <<IntV(1), IntV(0), IntV(2)>>)>> \o
                    LET k == Row(<<kn>>, 11, N(1)) IN [j \in 1..Len(k) |-> If([k[j] EXCEPT !.v = Some(@, 2) \o <<None>>], q)]
B07Kn == (KNames \ {"cond", "json", "const"}) \cap (IF Deep THEN KNames ELSE {"u16", "rbits", "str", "list", "lba", "sel"})
B07 == {Case(Three, B07Row(kn, q), 0-1) : kn \in B07Kn, q \in Conds(1, 0)} \cup {Case(Three, Back(B07Row(kn, q)), 0-1) : kn \in B07Kn, q \in Conds(1, 1)}
B07b == UNION {{Plain(<<F(p[1], U, Ix1(N(0)), <<IntV(1), IntV(0), IntV(2)>>),
                [If(F(p[2], U, Sl(N(1), N(3)), <<IntV(258), None, IntV(65536)>>), q) EXCEPT !.f.uif = r],
                If(F(p[3], U, Ix1(PlusE(N(1), IF s = 0 THEN Op("mul", Op("eq", Fd(p[1], d), N(1)), N(2)) ELSE N(2))), <<IntV(7), None>>), IF s = 2 THEN When(Op("eq", Fd(p[1], d), N(0))) ELSE Yes)>>) :
                q \in Conds(p[1], d), r \in {When(Op("eq", Fd(p[1], d), N(1))), Flagged(1)}, s \in 0..2} :
               p \in IF Deep THEN Perms ELSE {<<1, 2, 3>>, <<3, 1, 2>>}, d \in Direct}
B08 == {Plain(<<F(1, StrT(enc, pad, strip, just), By(0, 2), StrsOver(<<97, pad>> \o (IF InSeq(pad, strip) THEN <<>> ELSE <<strip[1]>>), 2) \o <<Str(<<97, 97, 97>>), Str(<<233>>), Str(<<1488>>), Str(<<>>)>>),
                F(2, U, Ix1(N(2)), <<IntV(7)>>)>>) :
        enc \in {"ascii", "latin-1", "utf-8"}, pad \in {32, 0}, strip \in {<<0>>, <<46, 0>>}, just \in 0..2}
       \cup {Plain(<<F(1, StrT("ascii", pad, <<0>>, just), By(1, 4), StrsOver(<<97, pad>>, 3)), F(2, U, Ix1(N(0)), <<IntV(7)>>)>>) : pad \in {32, 97}, just \in 0..2}
       \cup {Plain(<<F(1, StrT(enc, 32, <<0>>, just), From(N(0)), <<Str(<<97>>), Str(<<>>), Str(<<97, 233>>), Str(<<97, 32>>), Str(<<32, 97>>)>>)>>) : enc \in {"ascii", "latin-1", "utf-8"}, just \in 0..2}
       \cup {Plain(<<F(1, Js, p, JsonVals \o <<List(<<Str(<<97, 10>>), List(<<V("dict", <<>>, <<Str(<<98>>), List(<<>>)>>)>>)>>), Str(<<97, 32>>), Str(<<>>)>>)>>) : p \in {By(0, 9), From(N(0)), By(1, 4)}}
       \cup {Plain(<<F(1, Ba, p, ByteVals(2))>>) : p \in {By(0, 2), From(N(0)), LstP(<<Ix1(N(1)), Ix1(N(0))>>), Bits(By(0, 2), KS(0, 16)), Bits(By(0, 3), KS(4, 20))}}
       \cup {Plain(<<F(1, StrT("ascii", 32, <<0>>, just), p, StrsOver(<<97, 98>>, 2))>>) : just \in 0..1, p \in {LstP(<<Ix1(N(2)), Ix1(N(0))>>), Bits(By(0, 3), KS(3, 19)), AddP(By(1, 2), From(N(2)))}}
B09El == <<U8, IntT(16, TRUE, TRUE), IntT(32, FALSE, FALSE), StrE(16, 32, 0), StrE(16, 0, 1), Buf(1), Buf(2), Buf(3)>>
ElVals(el) == CASE el.k = "int" -> UVals(el.sz) [] el.k = "str" -> <<Str(<<97, 98>>), Str(<<>>), Str(<<97>>), Str(<<233>>)>>
                [] el.k = "buf" -> IF el.c = 1 THEN <<O1(1, 2), O1(0, 0), O1(255, 256)>> ELSE IF el.c = 2 THEN <<O2(<<1>>), O2(<<>>), O2(<<5, 6, 7>>)>> ELSE <<O3(1), O3(0), O3(300)>>
ListVals(el, n) == LET e == ElVals(el) IN [j \in 1..Len(e) |-> List([h \in 1..n |-> IF h = n THEN e[j] ELSE e[1]])]
                                          \o <<List(<<>>), List(Rep(e[2], n + 1)), List(Rep(e[1], Max2(n - 1, 0))), None>>
ElW(el) == IF el.k = "buf" THEN (IF el.c = 1 THEN 2 ELSE IF el.c = 3 THEN 1 ELSE 0) ELSE el.sz \div 8
B09 == UNION {{Case(Three, <<F(1, U, Ix1(N(0)), <<IntV(2), IntV(0), IntV(1), IntV(3)>>), F(2, Lst(B09El[e], n), From(N(1)), ListVals(B09El[e], 2))>>, 0-1) :
               n \in {NoK, Cnt(N(2)), Cnt(Fd(1, 0)), Cnt(N(0))}} : e \in 1..Len(B09El)}
       \cup {Case(Three, <<F(1, U, Ix1(N(0)), <<IntV(2), IntV(0), IntV(3)>>), F(2, Lst(B09El[e], n), By(1, 1 + 2 * ElW(B09El[e])), ListVals(B09El[e], 2)), F(3, U, Ix1(N(9)), <<IntV(77)>>)>>, 0-1) :
             n \in {NoK, Cnt(N(2)), Cnt(Fd(1, 1))}, e \in {1, 2, 4, 6, 8}}
       \cup UNION {{Case(Three, <<F(1, U, Ix1(N(0)), <<IntV(0), IntV(1), IntV(2), IntV(5)>>),
                     After(F(2, LstS(Buf(1), n, Sel(1, ki, kb, ch)), From(N(1)), <<List(<<O1(1, 2), O2(<<9>>), O3(4)>>), List(<<O2(<<>>), O2(<<>>)>>), List(<<>>)>>), <<1>>)>>, 0-1) :
                    ch \in {<<Cl(1), Cl(2), Cl(3)>>, <<Cl(3), Nil>>, <<Pair(2), Cl(2)>>}, n \in {NoK, Cnt(N(2)), Cnt(N(3))}} : ki \in 0..1, kb \in 0..1}
       \cup {Case(Three, <<F(1, U, Ix1(N(0)), <<IntV(0), IntV(1), IntV(2)>>),
                     After(F(2, BufS(2, Sel(1, 0, kb, ch)), p, <<O2(<<5>>), O1(1, 2), O3(3)>>), <<1>>), F(3, U, Ix1(Af(2)), <<IntV(8)>>)>>, 0-1) :
             ch \in {<<Cl(2), Cl(1), Cl(3)>>, <<Nil, Cl(3)>>, <<Pair(1), Cl(2)>>}, kb \in 0..1, p \in {From(N(1)), By(1, 3)}}
       \cup {Case(Three, <<F(1, Buf(c), p, <<O2(<<1>>), O2(<<>>), O1(1, 2), O3(7), None>>), F(2, U, Ix1(q), <<IntV(9)>>)>>, 0-1) : c \in 1..3, p \in {From(N(0))}, q \in {Af(1)}}
       \cup {Case(Three, <<F(1, Lst(Buf(2), Cnt(N(2))), From(N(1)), ListVals(Buf(2), 2)), F(2, Lst(U8, NoK), From(Af(1)), ListVals(U8, 2)), SetRef(F(3, U, Ix1(N(0)), <<None>>), Ln(1, d))>>, 0-1) : d \in Direct}
BadP(a) == {LstP(<<By(a, a + 2), Ix1(N(a + 1))>>), AddP(By(a, a + 2), By(a + 1, a + 3)), Bits(Ix1(N(a)), KS(4, 12)), Bits(Ix1(N(a)), [k |-> "ix", n |-> 8]), By(a + 2, a + 1),
            Bits(By(a, a + 2), KL(<<KS(0, 5), KS(4, 8)>>)), Bits(By(a, a + 2), KL(<<KS(0, 4), KS(4, 8)>>)), LstP(<<By(a, a + 2), By(a + 2, a + 3)>>), Bits(Ix1(N(a)), KS(5, 3)),
            Sl(N(0 - 1), N(2)), AddP(Ix1(N(a)), Bits(Ix1(N(a)), KS(7, 8)))}
B10 == {Plain(<<F(n, ty, p, IF ty = U THEN UVals(8) ELSE ByteVals(2)), F(2, U, Ix1(N(7)), <<IntV(1)>>)>>) : p \in UNION {BadP(a) : a \in 0..1}, ty \in {U, Ba}, n \in {1, 3}}
       \cup {Case(Three, Few(Row(<<a>>, 1, N(0)), 10), 0-1) : a \in KNames}
       \cup UNION {{Plain(<<F(1, q[1], Bits(By(0, 2 + q[2] \div 8), KS(k, k + q[2])), q[3]), F(2, U, Bits(Ix1(N(0)), KS(0, k)), <<IntV(0), IntV(1)>>)>>) : k \in {1, 4}} :
             q \in {<<IntT(0-1, FALSE, FALSE), 8, UVals(8)>>, <<IntT(0-1, TRUE, FALSE), 32, SVals(32)>>, <<IntT(0-1, FALSE, TRUE), 64, UVals(64)>>, <<Flt(0-1, TRUE), 32, FltVals>>,
                     <<Flt(0-1, FALSE), 64, FltVals>>, <<S0, 16, <<Str(<<97, 98>>), Str(<<97>>)>>>>, <<Js, 16, <<IntV(12), IntV(5), List(<<>>)>>>>, <<Ba, 16, ByteVals(2)>>, <<IntT(0-1, FALSE, FALSE), 24, UVals(24)>>,
                     <<Lst(U8, NoK), 16, <<List(<<IntV(1), IntV(2)>>)>>>>}}
       \cup UNION {{Plain(<<F(1, U, Ix1(N(0)), <<IntV(1), IntV(2), IntV(4), IntV(6)>>), F(2, ty, p, IF ty = U THEN <<IntV(5), IntV(70000)>> ELSE <<Bytes(<<1, 2>>), Bytes(<<1, 2, 3, 4>>)>>)>>) :
             p \in {Sl(Fd(1, d), N(4)), Sl(N(1), Fd(1, d)), LstP(<<By(1, 3), Ix1(Fd(1, d))>>), LstP(<<Sl(N(1), Fd(1, d)), Ix1(N(2))>>), From(Op("sub", Fd(1, d), N(2))), Sl(N(1), Op("sub", Fd(1, d), N(2)))}, ty \in {U, Ba}} : d \in Direct}
       \cup {Case(Three, <<F(1, Lst(Buf(2), NoK), From(N(0)), <<List(<<O2(<<1>>)>>), List(<<O1(1, 300)>>)>>)>>, 0-1), Case(Three, <<F(1, Lst(IntT(16, FALSE, FALSE), Cnt(N(3))), From(N(0)), <<List(<<IntV(1), IntV(2), IntV(3)>>), List(<<IntV(70000)>>)>>)>>, 0-1)}
Catalogue ==
    CASE Group = "B01" -> B01 [] Group = "B02" -> B02 [] Group = "B03" -> B03 [] Group = "B04" -> B04 [] Group = "B05" -> B05
      [] Group = "B06" -> B06 [] Group = "B07" -> B07b \cup B07 [] Group = "B08" -> B08 [] Group = "B09" -> B09 [] Group = "B10" -> B10

------------------------------------------------------------------------------
Init == /\ sch \in Catalogue /\ st = Init0(sch) /\ hist = <<>> /\ pc = 0
Subject == [c |-> sch.c]
Do(e) == LET r == Step(Subject, st, e) IN st' = r.st /\ hist' = Append(hist, e @@ [res |-> r.res])
C == Len(sch.c)
O(op, o) == [op |-> op, o |-> o]
Un(o, b, via) == [op |-> "unpack", o |-> o, b |-> b, via |-> via]
New(o, kw) == [op |-> "new", o |-> o, c |-> C, kw |-> kw]
Kw(vs) == SelectSeq([j \in 1..Len(vs) |-> [f |-> sch.c[C].fs[j].n, v |-> vs[j]]], LAMBDA a : a.v.t # "none")
First == Kw(Vary(sch.v)[1])
Script == <<O("all", 1), O("size", 1), O("pack", 1), O("calls", 1), O("all", 1), O("pack", 1), O("size", 1), [op |-> "csize", c |-> C]>>
Wrote == hist[4].res
Cuts(b) == LET n == Min2(Len(b), 9) IN Concat([k \in 1..n |-> <<Un(2, SubSeq(b, 1, Len(b) - k), k % 4), O("all", 2)>>])
Read(b) == <<New(2, <<>>), Un(2, b, 0), O("calls", 2), O("all", 2), O("pack", 2), O("size", 2), O("all", 2)>>
           \o (IF hist[1].kw = First \/ Deep THEN Cuts(b) \o <<Un(2, b \o <<1, 0>>, 1), O("all", 2), Un(2, b, 2), O("all", 2), [op |-> "setx", o |-> 2, n |-> 2], O("pack", 2), Un(2, b, 3), O("all", 2)>> ELSE <<>>)
Start == Len(Script) + 1
Damage(b) == {b \o <<1>>} \cup {Put(b, j, (b[j] + 1) % 256) : j \in 1..Min2(Len(b), IF Deep THEN 12 ELSE 3)}
             \cup {Put(b, j, x) : j \in 1..Min2(Len(b), IF Deep THEN 12 ELSE 1), x \in {0, 255}}
Hurt(d) == <<New(1, <<>>), Un(1, d, 0), O("all", 1), O("pack", 1), O("size", 1), O("all", 1)>>
Export == PrintT("@@BEH " \o ToJson([sch |-> Subject, ev |-> hist']))
(* pc < 1000: an object is made, packed and unpacked; then, from 1000 on, damaged bytes are unpacked *)
Next ==
    /\ sch' = sch
    /\ \/ /\ pc = 0 /\ pc' = 1
          /\ \E vs \in LET r == Vary(sch.v) IN {r[j] : j \in 1..Len(r)} : Do(New(1, Kw(vs)))
       \/ /\ pc \in 1..Len(Script) /\ pc' = pc + 1 /\ Do(Script[pc]) /\ (pc = Len(Script) /\ Wrote.t # "bytes" => Export)
       \/ /\ pc \in Start..999 /\ Wrote.t = "bytes" /\ pc - Start < Len(Read(Wrote.i)) /\ pc' = pc + 1
          /\ Do(Read(Wrote.i)[pc - Start + 1]) /\ (pc - Start + 1 = Len(Read(Wrote.i)) => Export)
       \/ /\ pc = Start /\ Wrote.t = "bytes" /\ hist[1].kw = First /\ pc' = 1000
          /\ \E d \in Damage(Wrote.i) : hist' = Hurt(d) /\ st' = Init0(Subject)
       \/ /\ pc \in 1000..1005 /\ pc' = pc + 1
          /\ LET e == hist[pc - 999]  r == Step(Subject, st, e) IN st' = r.st /\ hist' = Put(hist, pc - 999, e @@ [res |-> r.res])
          /\ (pc = 1005 => Export)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the definitions must imply *)
S == sch.c
Made == pc = 1 /\ st.o[1].t = "obj"
TheObj == st.o[1]
(* Below, pk is what packing it gives and up what unpacking those bytes gives *)
Pk == PackObj(S, TheObj, NestedX)
Up(b) == UnpackObj(S, C, b, NestedX)
Packs(pk) == pk.t = "val"
Definite(r) == r.t = "val" /\ \A j \in 1..Len(r.v.v) : ~HasAny(r.v.v[j])
NoSau(c) == \A j \in 1..Len(S[c].fs) : S[c].fs[j].sau.k = "no"
RECURSIVE Strs(_)
Strs(v) == v.t = "str" \/ \E j \in 1..Len(v.k) : Strs(v.k[j])
(* what was packed packs to the same bytes again once unpacked, unless text lost its padding, or types chosen or positions said do not agree with the values *)
RoundTrip(pk, up) == (Packs(pk) /\ Group \in {"B01", "B02", "B03", "B04"} /\ NoSau(C) /\ ~\E j \in 1..Len(S[C].fs) : "sel" \in DOMAIN S[C].fs[j].ty /\ S[C].fs[j].ty.sel.k = "sel") =>
    (Definite(up) => LET q == PackObj(S, Obj(C, up.v.v), NestedX) IN q.t = "val" => (q.v.b = pk.v.b /\ q.v.v.k = up.v.v))
Reads(pk, up) == (Packs(pk) /\ Group \in {"B01", "B02"}) => up.t = "val"
(* the ways to tell the size agree *)
SizesAgree(pk, up) == Packs(pk) => LET n == SizeObj(S, TheObj, NestedX) IN
    /\ n.t = "val" => 8 * CeilDiv(n.v, 8) = Len(pk.v.b) \/ StaticSize(S, C) = 0
    /\ StaticSize(S, C) > 0 => Len(pk.v.b) = 8 * CeilDiv(StaticSize(S, C), 8)
UnpackSize(pk, up) == (Packs(pk) /\ Group \in {"B01", "B02", "B03", "B04"} /\ ~\E j \in 1..Len(S[C].fs) : "sel" \in DOMAIN S[C].fs[j].ty /\ S[C].fs[j].ty.sel.k = "sel") =>
    ((up.t = "val" /\ up.v.n.t = "val") => 8 * CeilDiv(up.v.n.v, 8) = Len(pk.v.b))
(* the order in which fields are declared does not matter *)
Turned == [S EXCEPT ![C].fs = Rev(@)]
Order(pk, up) == (S[C].base = <<>>) => LET q == PackObj(Turned, Obj(C, Rev(TheObj.k)), NestedX) IN
    /\ pk.t = q.t /\ (pk.t = "val" => q.v.b = pk.v.b /\ q.v.v.k = Rev(pk.v.v.k))
    /\ pk.t = "val" => LET a == up  b == UnpackObj(Turned, C, pk.v.b, NestedX) IN a.t = b.t /\ (a.t = "val" => b.v.v = Rev(a.v.v) /\ b.v.n = a.v.n)
(* bits outside the positions of its fields are zero, and fields at fixed positions only read their own *)
Cover(c) == UNION {LET l == StaticPos(S, S[c].fs[j].p) IN UNION {(l.v[h][1] + 1)..l.v[h][2] : h \in 1..Len(l.v)} : j \in 1..Len(S[c].fs)}
Fixed == AllStatic(S, C) /\ ~BadClass(S, C)
OwnBits(pk, up) == (Packs(pk) /\ Fixed) => \A p \in 1..Len(pk.v.b) : p \notin Cover(C) => pk.v.b[p] = 0
OthersUnread(pk, up) == (Packs(pk) /\ Fixed) => \A p \in 1..Min2(Len(pk.v.b), 60) : p \notin Cover(C) => Up(Put(pk.v.b, p, 1)) = up
Short(pk, up) == (Packs(pk) /\ Group = "B01") => \A k \in 1..Len(pk.v.b) \div 8 : Up(SubSeq(pk.v.b, 1, Len(pk.v.b) - 8 * k)).t = "err"
(* what is absent is not looked at *)
AbsentUnseen(pk, up) == (Packs(pk) /\ Group = "B07") =>
    \A j \in 1..Len(S[C].fs) : LET q == Present(S, [m |-> "p", c |-> C, v |-> TheObj.k, x |-> NestedX, b |-> <<>>], j, <<>>) IN
        (q.t = "val" /\ ~q.v) => LET r == PackObj(S, Obj(C, Put(TheObj.k, j, Str(<<1>>))), NestedX) IN r.t # "val" \/ r.v.b = pk.v.b
Implied == Made => LET pk == Pk  up == IF pk.t = "val" THEN Up(pk.v.b) ELSE [t |-> "none"] IN
    /\ RoundTrip(pk, up) /\ Reads(pk, up) /\ SizesAgree(pk, up) /\ UnpackSize(pk, up) /\ Order(pk, up)
    /\ OwnBits(pk, up) /\ OthersUnread(pk, up) /\ Short(pk, up) /\ AbsentUnseen(pk, up)
==============================================================================
