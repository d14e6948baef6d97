-------------------------------- MODULE Buffer --------------------------------
(* Buffer classes: fields at declared, dependent or conditional positions.     *)
(* A subject is [c |-> classes]. A class is [fs, size, base]: all its fields   *)
(* (its own, then its bases'), its declared size in bits (-1: none) and its    *)
(* bases. A field is                                                           *)
(*   [n, ty, p, pu, sbp, sau, pif, uif, ua, d]                                 *)
(* name, type, position when packing and unpacking, value set before packing,  *)
(* value set after unpacking, conditions, fields unpacked first, default.      *)
(* Numeric expressions (their values are counted in eighths, so that a number  *)
(* of bytes is a number of bits):                                              *)
(*   [k |-> "c", n]  [k |-> "x"]  [k |-> "mf", n]  [k |-> "fld"/"len"/"after", f]  *)
(*   [k |-> "total"]  [k |-> "inlen"]  [k |-> "op", o, a, b]  [k |-> "neg", a]     *)
(*   [k |-> "min"/"max", l]                                                     *)
(* Positions are those of Spans with numeric expressions for byte offsets.     *)
EXTENDS Spans

Ok(v) == [t |-> "val", v |-> v]
ErrR == [t |-> "err", v |-> 0]
UnR == [t |-> "un", v |-> 0]        \* left open by the specification
Bind(r, F(_)) == IF r.t = "val" THEN F(r.v) ELSE r
Obj(c, vs) == V("obj", <<c>>, vs)
NestedX == 3                       \* the plain attribute of objects inside others

Fields(S, c) == S[c].fs
Has(S, c, n) == \E j \in 1..Len(S[c].fs) : S[c].fs[j].n = n
Ix(S, c, n) == CHOOSE j \in 1..Len(S[c].fs) : S[c].fs[j].n = n

RECURSIVE HasAny(_)
HasAny(v) == v.t = "any" \/ \E j \in 1..Len(v.k) : HasAny(v.k[j])

------------------------------------------------------------------------------
(* Static classes: nothing in any position depends on the object or the input. *)
RECURSIVE StaticE(_)
StaticE(e) == CASE e.k = "c" -> TRUE
                [] e.k = "op" -> StaticE(e.a) /\ StaticE(e.b)
                [] e.k = "neg" -> StaticE(e.a)
                [] e.k \in {"min", "max"} -> \A j \in 1..Len(e.l) : StaticE(e.l[j])
                [] OTHER -> FALSE
RECURSIVE StaticP(_)
StaticP(p) == CASE p.k = "sl"  -> (p.lo.k = "no" \/ StaticE(p.lo)) /\ p.hi.k # "no" /\ StaticE(p.hi)
                [] p.k = "ix"  -> StaticE(p.n)
                [] p.k = "lst" -> \A j \in 1..Len(p.l) : StaticP(p.l[j])
                [] p.k = "add" -> StaticP(p.a) /\ StaticP(p.b)
                [] p.k = "bits" -> StaticP(p.p)
PosU(f) == IF f.pu.k = "same" THEN f.p ELSE f.pu

------------------------------------------------------------------------------
(* Text of JSON values. Control and non-ASCII characters are escaped. *)
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
U4(c) == <<92, 117, Hex(c \div 4096), Hex((c \div 256) % 16), Hex((c \div 16) % 16), Hex(c % 16)>>
JChar(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
              [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
              [] c \in 32..126 -> <<c>>
              [] c < 65536 /\ (c < 32 \/ c > 126) /\ c \notin {8, 9, 10, 12, 13} -> U4(c)
              [] OTHER -> LET x == c - 65536 IN U4(55296 + x \div 1024) \o U4(56320 + (x % 1024))
JString(s) == <<34>> \o Concat([j \in 1..Len(s) |-> JChar(s[j])]) \o <<34>>
RECURSIVE JText(_)
RECURSIVE JJoin(_)
JJoin(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44, 32>> \o JJoin(Tail(ts))
JText(v) ==
    CASE v.t = "none" -> <<110, 117, 108, 108>>
      [] v.t = "int"  -> (IF IsNeg(v) THEN <<45>> ELSE <<>>) \o Decimal(Mag(v))
      [] v.t = "float" -> FText(v.i)
      [] v.t = "bool" -> IF v.i[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] v.t = "str"  -> JString(v.i)
      [] v.t = "list" -> <<91>> \o JJoin([j \in 1..Len(v.k) |-> JText(v.k[j])]) \o <<93>>
      [] v.t = "dict" -> <<123>> \o JJoin([j \in 1..Len(v.k) \div 2 |-> JText(v.k[2*j - 1]) \o <<58, 32>> \o JText(v.k[2*j])]) \o <<125>>
RECURSIVE JKnown(_)
JKnown(v) == \/ v.t \in {"none", "str", "int", "bool"} \/ (v.t = "float" /\ FUnits(v.i) >= 0)
             \/ v.t = "list" /\ \A j \in 1..Len(v.k) : JKnown(v.k[j])
             \/ v.t = "dict" /\ \A j \in 1..Len(v.k) : JKnown(v.k[j]) /\ ((j % 2) = 1 => v.k[j].t = "str")

(* Reading JSON: [t, v, j]: value and next position; "un" for what is not described here (exponents, long fractions). *)
JR(t, v, j) == [t |-> t, v |-> v, j |-> j]
JE == JR("err", None, 0)
JU == JR("un", None, 0)
At(s, j) == IF j <= Len(s) THEN s[j] ELSE 0-1
RECURSIVE Ws(_, _)
Ws(s, j) == IF At(s, j) \in {32, 9, 10, 13} THEN Ws(s, j + 1) ELSE j
IsDigit(c) == c \in 48..57
RECURSIVE JInt(_, _, _)
JInt(s, j, acc) == IF IsDigit(At(s, j)) THEN JInt(s, j + 1, Norm(MulSmall(acc, 10, s[j] - 48))) ELSE JR("val", acc, j)
RECURSIVE JDigits(_, _)
JDigits(s, j) == IF IsDigit(At(s, j)) THEN <<s[j] - 48>> \o JDigits(s, j + 1) ELSE <<>>
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 0-1
RECURSIVE JStr(_, _, _)
JStr(s, j, acc) ==
    LET c == At(s, j)  e == At(s, j + 1) IN
    IF c = 34 THEN JR("val", Str(acc), j + 1)
    ELSE IF c < 32 THEN JE
    ELSE IF c > 127 THEN JU
    ELSE IF c # 92 THEN JStr(s, j + 1, Append(acc, c))
    ELSE IF e \in {34, 92, 47} THEN JStr(s, j + 2, Append(acc, e))
    ELSE IF e = 98 THEN JStr(s, j + 2, Append(acc, 8))
    ELSE IF e = 102 THEN JStr(s, j + 2, Append(acc, 12))
    ELSE IF e = 110 THEN JStr(s, j + 2, Append(acc, 10))
    ELSE IF e = 114 THEN JStr(s, j + 2, Append(acc, 13))
    ELSE IF e = 116 THEN JStr(s, j + 2, Append(acc, 9))
    ELSE IF e = 117 THEN
        LET h == [d \in 1..4 |-> HexVal(At(s, j + 1 + d))] IN
        IF \E d \in 1..4 : h[d] < 0 THEN (IF j + 5 > Len(s) \/ \E d \in 2..5 : At(s, j + d) \in {34} THEN JE ELSE JU)
        ELSE LET u == 4096 * h[1] + 256 * h[2] + 16 * h[3] + h[4] IN
             IF u \in 55296..57343 THEN JU ELSE JStr(s, j + 6, Append(acc, u))
    ELSE JE
SeqLess(a, b) == \E j \in 1..Len(b) : (\A d \in 1..j-1 : d <= Len(a) /\ a[d] = b[d]) /\ (j > Len(a) \/ a[j] < b[j])
RECURSIVE JVal(_, _)
RECURSIVE JItems(_, _, _)
RECURSIVE JPairs(_, _, _)
JWord(s, j, w, v) == IF SubSeq(s, j, Min2(Len(s), j + Len(w) - 1)) = w THEN JR("val", v, j + Len(w)) ELSE JE
JVal(s, j0) ==
    LET j == Ws(s, j0)  c == At(s, j) IN
    IF c = 110 THEN JWord(s, j, <<110, 117, 108, 108>>, None)
    ELSE IF c = 116 THEN JWord(s, j, <<116, 114, 117, 101>>, V("bool", <<1>>, <<>>))
    ELSE IF c = 102 THEN JWord(s, j, <<102, 97, 108, 115, 101>>, V("bool", <<0>>, <<>>))
    ELSE IF c \in {78, 73} THEN JU
    ELSE IF c = 34 THEN JStr(s, j + 1, <<>>)
    ELSE IF IsDigit(c) \/ (c = 45 /\ IsDigit(At(s, j + 1))) THEN
        LET d == IF c = 45 THEN j + 1 ELSE j
            r == IF s[d] = 48 THEN JR("val", <<>>, d + 1) ELSE JInt(s, d, <<>>)
            sg == IF c = 45 THEN 1 ELSE 0
            fr == IF At(s, r.j) = 46 THEN JDigits(s, r.j + 1) ELSE <<>>
            en == IF fr = <<>> THEN r.j ELSE r.j + 1 + Len(fr)
            un == FracUnits(fr, 10, 0) IN
        IF At(s, en) \in {46, 69, 101} THEN JU
        ELSE IF fr = <<>> THEN JR("val", BigV(sg, r.v), en)
        ELSE IF Len(r.v) > 2 \/ (Len(r.v) = 2 /\ r.v[2] >= 64) \/ un < 0 THEN JU
        ELSE JR("val", V("float", FOfUnits(sg, 1024 * NatOfDigits(r.v) + un), <<>>), en)
    ELSE IF c = 45 THEN JU
    ELSE IF c = 91 THEN (IF At(s, Ws(s, j + 1)) = 93 THEN JR("val", List(<<>>), Ws(s, j + 1) + 1) ELSE JItems(s, j + 1, <<>>))
    ELSE IF c = 123 THEN (IF At(s, Ws(s, j + 1)) = 125 THEN JR("val", V("dict", <<>>, <<>>), Ws(s, j + 1) + 1) ELSE JPairs(s, j + 1, <<>>))
    ELSE JE
JItems(s, j, acc) ==
    LET r == JVal(s, j) IN
    IF r.t # "val" THEN r
    ELSE LET e == Ws(s, r.j) IN
         IF At(s, e) = 44 THEN JItems(s, e + 1, Append(acc, r.v))
         ELSE IF At(s, e) = 93 THEN JR("val", List(Append(acc, r.v)), e + 1) ELSE JE
JPairs(s, j, acc) ==
    LET q == Ws(s, j) IN
    IF At(s, q) # 34 THEN JE
    ELSE LET kk == JStr(s, q + 1, <<>>) IN
         IF kk.t # "val" THEN kk
         ELSE IF At(s, Ws(s, kk.j)) # 58 THEN JE
         ELSE LET r == JVal(s, Ws(s, kk.j) + 1) IN
              IF r.t # "val" THEN r
              ELSE LET e == Ws(s, r.j)  all == acc \o <<kk.v, r.v>> IN
                   IF At(s, e) = 44 THEN JPairs(s, e + 1, all)
                   ELSE IF At(s, e) = 125 THEN
                        (IF \A d \in 1..Len(all) \div 2 - 1 : SeqLess(all[2*d - 1].i, all[2*d + 1].i) THEN JR("val", V("dict", <<>>, all), e + 1) ELSE JU)
                   ELSE JE
JParse(s) == LET r == JVal(s, 1) IN
             IF r.t = "val" THEN (IF Ws(s, r.j) > Len(s) THEN Ok(r.v) ELSE ErrR)
             ELSE IF r.t = "un" THEN UnR ELSE ErrR

------------------------------------------------------------------------------
(* Encoding one value: bits, and the value as packing leaves it. size: bits of the position, -1 when open *)
E1(b, v) == Ok([b |-> b, v |-> v])
StructSizes == {8, 16, 32, 64}
EncInt(ty, v, size) ==
    LET sz == IF ty.sz >= 0 THEN ty.sz ELSE size IN
    IF v.t = "any" THEN UnR
    ELSE IF sz < 0 THEN ErrR
    ELSE IF sz = 0 \/ (size >= 0 /\ sz > size) THEN UnR
    ELSE IF sz \in StructSizes THEN
        IF v.t = "float" THEN UnR
        ELSE IF ~IntFits(v, sz \div 8, ty.sg) THEN ErrR ELSE E1(BitsOf(IntBytes(v, sz \div 8, ty.be)), v)
    ELSE IF v.t = "none" THEN ErrR
    ELSE IF v.t # "int" THEN UnR
    ELSE IF ~BitsFit(v, sz) THEN ErrR
    ELSE IF ty.be /\ (sz % 8) = 0 THEN E1(BitsOf(IntBytes(v, sz \div 8, TRUE)), v)
    ELSE E1(IntBits(v, sz), v)
EncFlt(ty, v, size) ==
    IF v.t = "float" /\ IsNaN(v.i) THEN UnR      \* which of the NaNs
    ELSE LET sz == IF ty.sz >= 0 THEN ty.sz ELSE IF size < 0 THEN 32 ELSE size IN
    IF v.t = "any" THEN UnR
    ELSE IF size >= 0 /\ sz > size THEN UnR
    ELSE IF sz \notin {32, 64} THEN ErrR
    ELSE IF v.t = "int" /\ (IsNeg(v) \/ NatOf(v) >= P23) THEN UnR
    ELSE LET f == IF v.t = "int" THEN V("float", IntToF64(v), <<>>) ELSE v IN
         IF ~FloatFits(f, sz \div 8) THEN ErrR ELSE E1(BitsOf(FloatBytes(f, sz \div 8, ty.be)), v)
Justify(ty, b, n) ==
    IF Len(b) >= n THEN Ok(b)
    ELSE LET m == n - Len(b) IN
         CASE ty.just = 0 -> Ok(b \o Rep(ty.pad, m))
           [] ty.just = 1 -> Ok(Rep(ty.pad, m) \o b)
           [] ty.just = 2 -> IF m % 2 = 1 THEN UnR ELSE Ok(Rep(ty.pad, m \div 2) \o b \o Rep(ty.pad, m \div 2))
EncText(ty, s, v, size) ==
    LET e == Encode(s, ty.enc) IN
    IF ~e.ok THEN ErrR
    ELSE IF size < 0 THEN E1(BitsOf(e.b), v)
    ELSE IF (size % 8) # 0 THEN ErrR
    ELSE Bind(Justify(ty, e.b, size \div 8), LAMBDA b : E1(BitsOf(b), v))
JTy == [enc |-> "ascii", pad |-> 32, strip |-> <<0>>, just |-> 0]

------------------------------------------------------------------------------
(* Evaluation. C: [m |-> "p" packing or "u" unpacking, c, v |-> attributes, x |-> plain attribute, b |-> input bits]; *)
(* stk: what is being evaluated, to tell cycles. A result is a value, an error, or left open.          *)
RECURSIVE E(_, _, _, _)
RECURSIVE EL(_, _, _, _)
RECURSIVE Pos(_, _, _, _)
RECURSIVE PosL(_, _, _, _)
RECURSIVE PVal(_, _, _, _)
RECURSIVE PRaw(_, _, _, _)
RECURSIVE PAbs(_, _, _, _)
RECURSIVE PEnc(_, _, _, _)
RECURSIVE UVal(_, _, _, _)
RECURSIVE URaw(_, _, _, _)
RECURSIVE URead(_, _, _, _)
RECURSIVE Total(_, _, _)
RECURSIVE TotalFrom(_, _, _, _, _)
RECURSIVE Present(_, _, _, _)
RECURSIVE Enc(_, _, _, _)
RECURSIVE EncItems(_, _, _, _, _)
RECURSIVE PackFrom(_, _, _, _)
RECURSIVE PackObj(_, _, _)
RECURSIVE UnpackObj(_, _, _, _)
RECURSIVE UnpackFrom(_, _, _, _)
RECURSIVE After1(_, _, _, _)
RECURSIVE Items(_, _, _, _, _, _, _, _)

Num(v) == IF v.t = "int" /\ Len(Mag(v)) <= 3 THEN Ok(8 * IntOf(v)) ELSE UnR
Small(a) == Abs(a) < 46000
FDiv8(a, b) == 8 * (IF b < 0 THEN (0 - a) \div (0 - b) ELSE a \div b)
Flag(x) == IF x THEN 8 ELSE 0
ApplyE(o, a, b) ==
    CASE o = "add" -> Ok(a + b) [] o = "sub" -> Ok(a - b)
      [] o = "mul" -> IF Small(a) /\ Small(b) /\ ((a * b) % 8) = 0 THEN Ok((a * b) \div 8) ELSE UnR
      [] o = "floordiv" -> IF b = 0 THEN ErrR ELSE Ok(FDiv8(a, b))
      [] o = "le" -> Ok(Flag(a <= b)) [] o = "lt" -> Ok(Flag(a < b)) [] o = "ge" -> Ok(Flag(a >= b))
      [] o = "gt" -> Ok(Flag(a > b)) [] o = "eq" -> Ok(Flag(a = b)) [] o = "ne" -> Ok(Flag(a # b))
(* two results are needed: one left open leaves both open *)
Both(r, s, F(_, _)) == IF r.t = "un" \/ s.t = "un" THEN UnR ELSE IF r.t = "err" \/ s.t = "err" THEN ErrR ELSE F(r.v, s.v)
RECURSIVE MinS(_)
MinS(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], MinS(Tail(s)))
RECURSIVE MaxS(_)
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], MaxS(Tail(s)))

InLen(C) == 8 * CeilDiv(Len(C.b), 8)
FVal(S, C, j, stk) == IF C.m = "p" THEN PVal(S, C, j, stk) ELSE UVal(S, C, j, stk)
(* what is read through a reference must be there *)
FRef(S, C, n, stk) == LET j == Ix(S, C.c, n)  q == Present(S, C, j, stk) IN
                      IF q.t # "val" \/ ~q.v THEN UnR ELSE FVal(S, C, j, stk)
LenV(v) == CASE v.t \in {"str", "bytes"} -> Ok(8 * Len(v.i)) [] v.t = "list" -> Ok(8 * Len(v.k))
             [] v.t = "dict" -> Ok(4 * Len(v.k)) [] v.t = "any" -> UnR [] OTHER -> ErrR
E(S, C, e, stk) ==
    CASE e.k = "c"  -> Ok(8 * e.n)
      [] e.k = "x"  -> Ok(8 * C.x)
      [] e.k = "mf" -> Ok(8 * (C.x + e.n))
      [] e.k = "fld" -> Bind(FRef(S, C, e.f, stk), Num)
      [] e.k = "len" -> Bind(FRef(S, C, e.f, stk), LenV)
      [] e.k = "after" -> LET j == Ix(S, C.c, e.f)  q == Present(S, C, j, stk) IN
                          IF q.t # "val" \/ ~q.v THEN UnR ELSE After1(S, C, j, stk)
      [] e.k = "total" -> Total(S, C, stk)
      [] e.k = "inlen" -> IF C.m = "p" THEN ErrR ELSE Ok(InLen(C))
      [] e.k = "op"  -> Both(E(S, C, e.a, stk), E(S, C, e.b, stk), LAMBDA a, b : ApplyE(e.o, a, b))
      [] e.k = "neg" -> Bind(E(S, C, e.a, stk), LAMBDA a : Ok(0 - a))
      [] e.k = "min" -> Bind(EL(S, C, e.l, stk), LAMBDA s : Ok(MinS(s)))
      [] e.k = "max" -> Bind(EL(S, C, e.l, stk), LAMBDA s : Ok(MaxS(s)))
EL(S, C, l, stk) == IF l = <<>> THEN Ok(<<>>)
                    ELSE Both(E(S, C, Head(l), stk), EL(S, C, Tail(l), stk), LAMBDA a, s : Ok(<<a>> \o s))

(* a position with its offsets evaluated, as Spans has them *)
RECURSIVE PlainKey(_)
PlainKey(key) == IF key.k = "lst" THEN [k |-> "lst", l |-> [j \in 1..Len(key.l) |-> PlainKey(key.l[j])]] ELSE key
Pos(S, C, p, stk) ==
    CASE p.k = "ix" -> Bind(E(S, C, p.n, stk), LAMBDA n : IF n < 0 THEN ErrR ELSE Ok([k |-> "sl", lo |-> n, hi |-> n + 8]))
      [] p.k = "sl" -> LET lo == IF p.lo.k = "no" THEN Ok(0) ELSE E(S, C, p.lo, stk)
                           hi == IF p.hi.k = "no" THEN Ok(0-1) ELSE E(S, C, p.hi, stk)
                       IN Both(lo, hi, LAMBDA a, b : IF a < 0 \/ (p.hi.k # "no" /\ (b < 0 \/ a > b)) THEN ErrR
                                                     ELSE Ok([k |-> "sl", lo |-> a, hi |-> b]))
      [] p.k = "lst" -> Bind(PosL(S, C, p.l, stk), LAMBDA l : Ok([k |-> "lst", l |-> l]))
      [] p.k = "add" -> Both(Pos(S, C, p.a, stk), Pos(S, C, p.b, stk), LAMBDA a, b : Ok([k |-> "add", a |-> a, b |-> b]))
      [] p.k = "bits" -> Bind(Pos(S, C, p.p, stk), LAMBDA q : Ok([k |-> "bits", p |-> q, key |-> PlainKey(p.key)]))
PosL(S, C, l, stk) == IF l = <<>> THEN Ok(<<>>)
                      ELSE Both(Pos(S, C, Head(l), stk), PosL(S, C, Tail(l), stk), LAMBDA a, s : Ok(<<a>> \o s))
RangesOf(r) == Bind(r, LAMBDA q : LET x == Resolve(q) IN IF ~x.ok \/ HasOverlap(x.r) THEN ErrR ELSE Ok(x.r))

In(stk, x) == \E j \in 1..Len(stk) : stk[j] = x
Cond(S, C, q, stk) == CASE q.k = "yes" -> Ok(TRUE)
                        [] q.k = "const" -> Ok(q.n # 0)
                        [] q.k = "e" -> Bind(E(S, C, q.e, stk), LAMBDA n : Ok(n # 0))
Present(S, C, j, stk) == IF In(stk, <<"if", j>>) THEN Ok(TRUE)
                         ELSE Cond(S, C, IF C.m = "p" THEN S[C.c].fs[j].pif ELSE S[C.c].fs[j].uif, Append(stk, <<"if", j>>))

(* a value from a reference: a copy of a field, or a number *)
(* What parts of a byte take part in need not be an integer, even if it is whole. *)
RECURSIVE Parts(_, _, _, _)
Parts(S, C, e, stk) ==
    LET l == CASE e.k = "op" -> <<e.a, e.b>> [] e.k = "neg" -> <<e.a>> [] e.k \in {"min", "max"} -> e.l [] OTHER -> <<>>
        Half(n) == n.t = "val" /\ (n.v % 8) # 0
    IN \E j \in 1..Len(l) : Half(E(S, C, l[j], stk)) \/ Parts(S, C, l[j], stk)
RefVal(S, C, e, stk) == IF e.k = "copy" THEN FRef(S, C, e.f, stk)
                        ELSE Bind(E(S, C, e, stk), LAMBDA n : IF (n % 8) = 0 /\ ~Parts(S, C, e, stk)
                                                              THEN Ok(IntV(n \div 8)) ELSE UnR)
(* a function of the object, which sees its attributes as they are *)
FnVal(S, C, q) ==
    IF q.g = "const" THEN Ok(IntV(q.n))
    ELSE IF q.g = "x" THEN Ok(IntV(C.x + q.n))
    ELSE LET j == Ix(S, C.c, q.f)  a == C.v[j] IN
         IF S[C.c].fs[j].sbp.k # "no" THEN UnR
         ELSE IF q.g = "len" THEN Bind(LenV(a), LAMBDA n : Ok(IntV((n \div 8) + q.n)))
         ELSE IF a.t = "none" THEN ErrR
         ELSE Bind(Num(a), LAMBDA n : Ok(IntV((n \div 8) + q.n)))

PVal(S, C, j, stk) ==
    IF In(stk, <<"v", j>>) THEN ErrR
    ELSE LET f == S[C.c].fs[j]  s2 == Append(stk, <<"v", j>>) IN
         CASE f.sbp.k = "no"    -> IF HasAny(C.v[j]) THEN UnR ELSE Ok(C.v[j])
           [] f.sbp.k = "const" -> Ok(f.sbp.v)
           [] f.sbp.k = "fn"    -> FnVal(S, C, f.sbp)
           [] f.sbp.k = "ref"   -> RefVal(S, C, f.sbp.e, s2)
PRaw(S, C, j, stk) ==
    IF In(stk, <<"r", j>>) THEN ErrR
    ELSE RangesOf(Pos(S, C, S[C.c].fs[j].p, Append(stk, <<"r", j>>)))
PEnc(S, C, j, stk) ==
    IF In(stk, <<"e", j>>) THEN ErrR
    ELSE LET s2 == Append(stk, <<"e", j>>) IN
         Both(PRaw(S, C, j, s2), PVal(S, C, j, s2),
              LAMBDA l, v : Enc(S, S[C.c].fs[j].ty, v, IF AnyOpen(l) THEN 0-1 ELSE TotalLen(l)))
Closed(l) == SelectSeq(l, LAMBDA r : ~Open(r))
(* an open range ends where the value ends *)
PAbs(S, C, j, stk) ==
    IF In(stk, <<"a", j>>) THEN ErrR
    ELSE LET s2 == Append(stk, <<"a", j>>) IN
         Bind(PRaw(S, C, j, s2), LAMBDA l :
              IF ~AnyOpen(l) THEN Ok(l)
              ELSE IF ~Open(l[Len(l)]) THEN UnR
              ELSE Bind(PEnc(S, C, j, s2), LAMBDA w :
                   LET n == Len(w.b) - TotalLen(Closed(l)) IN
                   IF (Len(w.b) % 8) # 0 THEN UnR ELSE IF n < 0 THEN ErrR
                   ELSE Ok(Put(l, Len(l), <<l[Len(l)][1], l[Len(l)][1] + n>>))))

------------------------------------------------------------------------------
(* Sizes *)
StaticC == [m |-> "p", c |-> 1, v |-> <<>>, x |-> 0, b |-> <<>>]
StaticPos(S, p) == Bind(Pos(S, StaticC, p, <<>>), LAMBDA q : LET x == Resolve(q) IN IF x.ok THEN Ok(x.r) ELSE ErrR)
AllStatic(S, c) == \A j \in 1..Len(S[c].fs) : StaticP(S[c].fs[j].p) /\ StaticP(PosU(S[c].fs[j]))
(* a class with a position that cannot be refused before packing or unpacking *)
BadClass(S, c) == \E j \in 1..Len(S[c].fs) : \/ (StaticP(S[c].fs[j].p) /\ StaticPos(S, S[c].fs[j].p).t = "err")
                                             \/ (StaticP(PosU(S[c].fs[j])) /\ StaticPos(S, PosU(S[c].fs[j])).t = "err")
BadOverlap(S, c) == \E j \in 1..Len(S[c].fs) : \/ (StaticP(S[c].fs[j].p) /\ HasOverlap(StaticPos(S, S[c].fs[j].p).v))
                                               \/ (StaticP(PosU(S[c].fs[j])) /\ HasOverlap(StaticPos(S, PosU(S[c].fs[j])).v))
(* one that is sure to be looked at *)
SureOverlap(S, c, packing) == \E j \in 1..Len(S[c].fs) : LET f == S[c].fs[j]  p == IF packing THEN f.p ELSE PosU(f) IN
    /\ StaticP(p) /\ HasOverlap(StaticPos(S, p).v)
    /\ IF packing THEN f.pif.k = "yes" ELSE f.uif.k = "yes" /\ f.sau.k # "ref"
RECURSIVE StaticMax(_, _, _)
StaticMax(S, fs, m) == IF fs = <<>> THEN m ELSE StaticMax(S, Tail(fs), Max2(m, MaxStop(StaticPos(S, Head(fs).p).v)))
(* bits; -1 when the size depends on the object *)
StaticSize(S, c) == IF S[c].size >= 0 THEN S[c].size
                    ELSE IF AllStatic(S, c) THEN StaticMax(S, S[c].fs, 0) ELSE 0-1

(* where n bits laid into the ranges end; only for data that fills them or stops in an open range *)
UsedEnd(raw, abs, n) ==
    IF n = TotalLen(abs) THEN Ok(MaxStop(abs))
    ELSE IF AnyOpen(raw) /\ n >= TotalLen(Closed(raw)) /\ n < TotalLen(abs)
         THEN LET o == CHOOSE j \in 1..Len(raw) : Open(raw[j]) IN
              Ok(Max2(MaxStop(Closed(raw)), raw[o][1] + n - TotalLen(Closed(raw))))
    ELSE UnR
After1(S, C, j, stk) ==
    IF C.m = "p" THEN Bind(PAbs(S, C, j, stk), LAMBDA l : Ok(MaxStop(l)))
    ELSE Bind(URaw(S, C, j, stk), LAMBDA l :
              IF ~AnyOpen(l) THEN Ok(MaxStop(l))
              ELSE Bind(URead(S, C, j, stk), LAMBDA r : UsedEnd(l, r.l, r.n)))
Total(S, C, stk) ==
    IF StaticSize(S, C.c) >= 0 THEN Ok(StaticSize(S, C.c))
    ELSE IF In(stk, <<"t", 0>>) THEN ErrR
    ELSE TotalFrom(S, C, 1, 0, Append(stk, <<"t", 0>>))
TotalFrom(S, C, j, m, stk) ==
    IF j > Len(S[C.c].fs) THEN Ok(m)
    ELSE LET q == Present(S, C, j, stk)
             r == IF q.t # "val" THEN q
                  ELSE IF ~q.v THEN Ok(0)
                  ELSE IF C.m = "p" THEN Bind(PAbs(S, C, j, stk), LAMBDA l : Ok(MaxStop(l)))
                  ELSE Bind(URaw(S, C, j, stk), LAMBDA l : Bind(URead(S, C, j, stk), LAMBDA x : UsedEnd(l, x.l, x.n)))
             rest == TotalFrom(S, C, j + 1, IF r.t = "val" THEN Max2(m, r.v) ELSE m, stk)
         IN IF r.t = "val" THEN rest ELSE Both(r, rest, LAMBDA a, b : Ok(0))

------------------------------------------------------------------------------
(* Packing *)
Enc(S, ty, v, size) ==
    CASE ty.k = "int" -> EncInt(ty, v, size)
      [] ty.k = "flt" -> EncFlt(ty, v, size)
      [] ty.k = "str" -> IF v.t = "str" THEN EncText(ty, v.i, v, size) ELSE UnR
      [] ty.k = "json" -> IF JKnown(v) THEN EncText(JTy, JText(v), v, size) ELSE UnR
      [] ty.k = "ba"  -> IF v.t = "bytes" THEN E1(BitsOf(v.i), v) ELSE IF v.t \in {"none", "str"} THEN ErrR ELSE UnR
      [] ty.k = "buf" -> IF v.t = "obj" THEN Bind(PackObj(S, v, NestedX), LAMBDA w :
                                                 IF size >= 0 /\ Len(w.b) > size THEN UnR ELSE Ok(w))
                         ELSE IF v.t = "none" THEN ErrR ELSE UnR
      [] ty.k = "list" -> IF v.t = "list" THEN Bind(EncItems(S, ty.el, v.k, <<>>, <<>>), LAMBDA w :
                                                   IF size >= 0 /\ Len(w.b) > size THEN UnR ELSE Ok(w))
                          ELSE IF v.t = "none" THEN ErrR ELSE UnR
EncItems(S, el, vs, bits, out) ==
    IF vs = <<>> THEN E1(bits, List(out))
    ELSE LET r == IF el.k = "str" /\ Head(vs).t = "str" /\ Len(Head(vs).i) * 8 > el.sz THEN UnR
                  ELSE Enc(S, el, Head(vs), IF el.k = "str" THEN el.sz ELSE 0-1) IN
         Bind(r, LAMBDA w : IF el.k = "str" /\ Len(w.b) > el.sz THEN UnR
                            ELSE EncItems(S, el, Tail(vs), bits \o w.b, Append(out, w.v)))
(* the fields that are there: <<ranges, bits>>, and the attributes afterwards *)
PackFrom(S, C, j, acc) ==
    IF j > Len(S[C.c].fs) THEN Ok(acc)
    ELSE LET q == Present(S, C, j, <<>>) IN
         IF q.t # "val" THEN q
         ELSE IF ~q.v THEN PackFrom(S, C, j + 1, acc)
         ELSE LET r == Both(PAbs(S, C, j, <<>>), PEnc(S, C, j, <<>>), LAMBDA l, w :
                            IF 8 * CeilDiv(Len(w.b), 8) < TotalLen(l) THEN ErrR
                            ELSE IF Len(w.b) < TotalLen(l) THEN UnR
                            ELSE Ok([l |-> l, w |-> w]))
                  rest == PackFrom(S, C, j + 1, IF r.t = "val" THEN [w |-> Append(acc.w, <<r.v.l, r.v.w.b>>), v |-> Put(acc.v, j, r.v.w.v)] ELSE acc)
              IN IF r.t = "val" THEN rest ELSE Both(r, rest, LAMBDA a, b : Ok(acc))
Spread(w) == Concat([h \in 1..Len(w) |-> [d \in 1..Len(w[h][1]) |->
                     [r |-> w[h][1][d], b |-> w[h][2], o |-> TotalLen(SubSeq(w[h][1], 1, d - 1))]]])
Layout(w) ==
    LET ws == Spread(w)
        n == MaxStop([h \in 1..Len(ws) |-> ws[h].r])
        over(p) == {h \in 1..Len(ws) : ws[h].r[1] < p /\ p <= ws[h].r[2]}
        at(p) == LET H == over(p) IN
                 IF H = {} THEN 0 ELSE LET h == CHOOSE h \in H : TRUE IN ws[h].b[ws[h].o + p - ws[h].r[1]]
    IN IF HasOverlap([h \in 1..Len(ws) |-> ws[h].r]) THEN UnR ELSE Ok([p \in 1..n |-> at(p)])
(* [b |-> bits (whole bytes), v |-> the object afterwards] *)
PackObj(S, o, x) ==
    LET c == o.i[1]
        C == [m |-> "p", c |-> c, v |-> o.k, x |-> x, b |-> <<>>]
        st == StaticSize(S, c)
    IN IF BadClass(S, c) \/ SureOverlap(S, c, TRUE) THEN ErrR
       ELSE IF BadOverlap(S, c) THEN UnR
       ELSE Bind(PackFrom(S, C, 1, [w |-> <<>>, v |-> o.k]), LAMBDA a :
            Bind(Layout(a.w), LAMBDA bits :
                 LET n == 8 * CeilDiv(Len(bits), 8)
                     m == IF st > 0 THEN 8 * CeilDiv(st, 8) ELSE n
                 IN IF n > m THEN ErrR ELSE E1(bits \o Rep(0, m - Len(bits)), Obj(c, a.v))))
SizeObj(S, o, x) == IF BadClass(S, o.i[1]) THEN ErrR
                    ELSE Total(S, [m |-> "p", c |-> o.i[1], v |-> o.k, x |-> x, b |-> <<>>], <<>>)

------------------------------------------------------------------------------
(* Unpacking *)
Got(b, l) == Concat([j \in 1..Len(l) |-> SubSeq(b, Min2(l[j][1], Len(b)) + 1, Min2(l[j][2], Len(b)))])
Dn(v, n) == Ok([v |-> v, n |-> n])
DecInt(ty, b, size) ==
    LET sz == IF ty.sz >= 0 THEN ty.sz ELSE size IN
    IF Len(b) < sz THEN ErrR
    ELSE IF sz = 0 THEN UnR
    ELSE LET d == SubSeq(b, 1, sz) IN
         IF sz \in StructSizes THEN Dn(IntFromBytes(BytesOf(d), ty.sg, ty.be), sz)
         ELSE IF ty.be /\ (sz % 8) = 0 THEN Dn(IntFromBytes(BytesOf(d), FALSE, TRUE), sz)
         ELSE Dn(IntFromBits(d), sz)
DecFlt(ty, b, size) ==
    LET sz == IF ty.sz >= 0 THEN ty.sz ELSE size IN
    IF sz \notin {32, 64} \/ Len(b) < sz THEN ErrR
    ELSE Dn(FloatFromBytes(BytesOf(SubSeq(b, 1, sz)), ty.be), sz)
Stripped(ty, b) ==
    CASE ty.just = 0 -> RStrip(RStrip(b, ty.strip), <<ty.pad>>)
      [] ty.just = 1 -> LStrip(LStrip(b, ty.strip), <<ty.pad>>)
      [] ty.just = 2 -> LStrip(RStrip(LStrip(RStrip(b, ty.strip), ty.strip), <<ty.pad>>), <<ty.pad>>)
DecText(ty, b, size) ==
    IF (size % 8) # 0 \/ Len(b) < size THEN ErrR
    ELSE LET r == Decode(Stripped(ty, BytesOf(SubSeq(b, 1, size))), ty.enc) IN
         IF r.ok THEN Dn(Str(r.b), size) ELSE ErrR
JWs == <<32, 9, 10, 11, 12, 13>>
JOdd == 28..31        \* whether these are blank is the interpreter's choice
DecJson(b, size) == Bind(DecText(JTy, b, size), LAMBDA r :
                         LET t == LStrip(RStrip(r.v.i, JWs), JWs) IN
                         IF t # <<>> /\ (t[1] \in JOdd \/ t[Len(t)] \in JOdd) THEN UnR
                         ELSE Bind(JParse(t), LAMBDA v : Dn(v, size)))
DecBuf(S, c, b) == IF (Len(b) % 8) # 0 THEN UnR
                   ELSE Bind(UnpackObj(S, c, b, NestedX), LAMBDA r : Bind(r.n, LAMBDA n : Dn(Obj(c, r.v), 8 * CeilDiv(n, 8))))
(* a selector: chosen by a field of the containing object, the index and the first byte at hand *)
Choose(S, C, sel, b, ix, stk) ==
    Bind(FRef(S, C, sel.f, stk), LAMBDA v :
         IF v.t # "int" \/ Len(Mag(v)) > 3 \/ (Len(b) % 8) # 0 THEN UnR
         ELSE LET n == IntOf(v) + sel.ki * ix + sel.kb * (IF Len(b) = 0 THEN 0 ELSE BytesOf(SubSeq(b, 1, 8))[1])
                  ch == sel.ch[(n % Len(sel.ch)) + 1]
              IN CASE ch.k = "cls"  -> DecBuf(S, ch.c, b)
                   [] ch.k = "none" -> Dn(None, 0)
                   [] ch.k = "pair" -> LET d == SubSeq(b, 1, Min2(8 * ch.n, Len(b))) IN Dn(Bytes(BytesOf(d)), Len(d)))
DecEl(S, C, ty, b, ix, stk) ==
    IF ty.sel.k # "no" THEN Choose(S, C, ty.sel, b, ix, stk)
    ELSE CASE ty.el.k = "int" -> DecInt(ty.el, b, ty.el.sz)
           [] ty.el.k = "str" -> IF Len(b) < ty.el.sz THEN ErrR ELSE DecText(ty.el, b, ty.el.sz)
           [] ty.el.k = "buf" -> DecBuf(S, ty.el.c, b)
(* elements from bit ofs of b; cnt < 0: as many as there are *)
Items(S, C, ty, b, ofs, cnt, out, stk) ==
    IF ofs >= Len(b) \/ (cnt >= 0 /\ Len(out) >= cnt) THEN Dn(List(out), ofs)
    ELSE Bind(DecEl(S, C, ty, SubSeq(b, ofs + 1, Len(b)), Len(out), stk), LAMBDA r :
              IF cnt < 0 /\ r.n = 0 THEN ErrR
              ELSE Items(S, C, ty, b, ofs + r.n, cnt, Append(out, r.v), stk))
URaw(S, C, j, stk) ==
    IF In(stk, <<"r", j>>) THEN ErrR
    ELSE RangesOf(Pos(S, C, PosU(S[C.c].fs[j]), Append(stk, <<"r", j>>)))
(* [v, n |-> bits used, l |-> the ranges read] *)
URead(S, C, j, stk) ==
    IF In(stk, <<"k", j>>) THEN ErrR
    ELSE LET s2 == Append(stk, <<"k", j>>)
             ty == S[C.c].fs[j].ty
             dec(b, size) ==
                 CASE ty.k = "int"  -> DecInt(ty, b, size)
                   [] ty.k = "flt"  -> DecFlt(ty, b, size)
                   [] ty.k = "str"  -> DecText(ty, b, size)
                   [] ty.k = "json" -> DecJson(b, size)
                   [] ty.k = "ba"   -> Dn(Bytes(BytesOf(b)), Len(b))
                   [] ty.k = "buf"  -> IF ty.sel.k # "no" THEN Choose(S, C, ty.sel, b, 0, s2) ELSE DecBuf(S, ty.c, b)
                   [] ty.k = "list" -> IF ty.n.k = "no" THEN Items(S, C, ty, b, 0, 0-1, <<>>, s2)
                                       ELSE Bind(E(S, C, ty.n.e, s2), LAMBDA n :
                                                 IF (n % 8) # 0 \/ Parts(S, C, ty.n.e, s2) THEN UnR ELSE Items(S, C, ty, b, 0, Max2(n \div 8, 0), <<>>, s2))
         IN Bind(URaw(S, C, j, s2), LAMBDA l :
              IF AnyOpen(l) /\ \E h \in 1..Len(l) : l[h][1] > InLen(C)
              THEN IF ty.k \in {"ba", "list", "buf"} THEN UnR ELSE ErrR
              ELSE LET a == [h \in 1..Len(l) |-> IF Open(l[h]) THEN <<l[h][1], InLen(C)>> ELSE l[h]] IN
                   Bind(dec(Got(C.b, a), TotalLen(a)), LAMBDA r : Ok([v |-> r.v, n |-> r.n, l |-> a])))
(* functions of the value that was read *)
After2(g, v) == CASE g = "wrap" -> Ok(List(<<v>>))
                  [] g = "dbl"  -> IF v.t = "int" /\ Len(Mag(v)) <= 3 THEN Ok(IntV(2 * IntOf(v))) ELSE IF v.t = "int" THEN UnR ELSE ErrR
                  [] g = "rev"  -> IF v.t \in {"str", "bytes"} THEN Ok(V(v.t, Rev(v.i), <<>>)) ELSE IF v.t = "list" THEN Ok(List(Rev(v.k))) ELSE ErrR
UVal(S, C, j, stk) ==
    IF In(stk, <<"v", j>>) THEN ErrR
    ELSE LET f == S[C.c].fs[j]  s2 == Append(stk, <<"v", j>>) IN
         CASE f.sau.k = "no"  -> Bind(URead(S, C, j, s2), LAMBDA r : Ok(r.v))
           [] f.sau.k = "fn"  -> Bind(URead(S, C, j, s2), LAMBDA r : After2(f.sau.g, r.v))
           [] f.sau.k = "ref" -> RefVal(S, C, f.sau.e, s2)
UnpackFrom(S, C, j, acc) ==
    IF j > Len(S[C.c].fs) THEN Ok(acc)
    ELSE LET f == S[C.c].fs[j]
             q == Present(S, C, j, <<>>)
             ua == {h \in 1..Len(f.ua) : FRef(S, C, f.ua[h], <<>>).t # "val"}
             r == IF q.t # "val" THEN q
                  ELSE IF ~q.v THEN Ok(None)
                  ELSE IF f.sau.k = "ref" /\ URead(S, C, j, <<>>).t # "val" THEN UnR
                  ELSE IF ua # {} THEN (IF \E h \in ua : FRef(S, C, f.ua[h], <<>>).t = "un" THEN UnR ELSE ErrR)
                  ELSE UVal(S, C, j, <<>>)
             rest == UnpackFrom(S, C, j + 1, IF r.t = "val" THEN Append(acc, r.v) ELSE acc)
         IN IF r.t = "val" THEN rest ELSE Both(r, rest, LAMBDA a, b : Ok(acc))
(* [v |-> attributes, n |-> result: size] *)
UnpackObj(S, c, b, x) ==
    LET C == [m |-> "u", c |-> c, v |-> <<>>, x |-> x, b |-> b] IN
    IF BadClass(S, c) \/ SureOverlap(S, c, FALSE) THEN ErrR
    ELSE IF BadOverlap(S, c) THEN UnR
    ELSE Bind(UnpackFrom(S, C, 1, <<>>), LAMBDA vs :
         LET n == Total(S, C, <<>>) IN IF n.t = "err" THEN ErrR ELSE Ok([v |-> vs, n |-> n]))

------------------------------------------------------------------------------
(* State: objects, and the plain attribute of each. *)
NO == 3
NoObj == V("none", <<>>, <<>>)
MaybeObj(c) == V("maybe", <<c>>, <<>>)       \* of a class with a field whose own ranges overlap: refused at some point before it packs or unpacks
Init0(sch) == [o |-> [j \in 1..NO |-> NoObj], x |-> [j \in 1..NO |-> NestedX]]
Ret(st, v) == [st |-> st, res |-> v]
ResV(r, F(_)) == CASE r.t = "val" -> F(r.v) [] r.t = "err" -> Err [] r.t = "un" -> AnyV
Spoil(S, o) == Obj(o.i[1], [j \in 1..Len(o.k) |-> AnyV])
Computed(S, o) == \E j \in 1..Len(o.k) : S[o.i[1]].fs[j].sbp.k # "no"
(* nested objects may have computed fields of their own *)
RECURSIVE Touchy(_, _)
Touchy(S, v) == \/ v.t = "obj" /\ (Computed(S, v) \/ \E j \in 1..Len(v.k) : Touchy(S, v.k[j]))
                \/ v.t = "list" /\ \E j \in 1..Len(v.k) : Touchy(S, v.k[j])
RECURSIVE Loosen(_, _)
Loosen(S, v) ==      \* whatever packing may have begun to compute
    CASE v.t = "obj"  -> Obj(v.i[1], [j \in 1..Len(v.k) |-> IF S[v.i[1]].fs[j].sbp.k # "no" THEN AnyV ELSE Loosen(S, v.k[j])])
      [] v.t = "list" -> List([j \in 1..Len(v.k) |-> Loosen(S, v.k[j])])
      [] OTHER -> v
RECURSIVE Mutated(_)
Mutated(v) == CASE v.t = "bytes" -> Bytes(Append(v.i, 99))
                [] v.t = "list"  -> List(Append(v.k, IntV(99)))
                [] v.t = "dict"  -> IF v.k # <<>> /\ v.k[Len(v.k) - 1] = Str(<<126>>) THEN V("dict", <<>>, Put(v.k, Len(v.k), IntV(99)))
                                    ELSE V("dict", <<>>, v.k \o <<Str(<<126>>), IntV(99)>>)
                [] v.t = "obj"   -> IF v.k = <<>> THEN v ELSE Obj(v.i[1], Put(v.k, 1, IntV(99)))
                [] OTHER -> v
NewVals(S, c, kw) == [j \in 1..Len(S[c].fs) |->
    LET K == {h \in 1..Len(kw) : kw[h].f = S[c].fs[j].n} IN IF K = {} THEN S[c].fs[j].d ELSE kw[CHOOSE h \in K : TRUE].v]
Step(sch, st, e) ==
    LET S == sch.c IN
    IF e.op = "new" THEN
        IF BadClass(S, e.c) \/ \E h \in 1..Len(e.kw) : ~Has(S, e.c, e.kw[h].f) THEN Ret([st EXCEPT !.o[e.o] = NoObj], Err)
        ELSE IF BadOverlap(S, e.c) THEN Ret([st EXCEPT !.o[e.o] = MaybeObj(e.c)], AnyV)
        ELSE Ret([st EXCEPT !.o[e.o] = Obj(e.c, NewVals(S, e.c, e.kw)), !.x[e.o] = NestedX], OK)
    ELSE IF e.op = "csize" THEN
        Ret(st, IF BadClass(S, e.c) THEN Err ELSE IF BadOverlap(S, e.c) THEN AnyV
                ELSE LET n == StaticSize(S, e.c) IN IF n < 0 THEN None ELSE IntV(n))
    ELSE IF st.o[e.o].t = "none" THEN Ret(st, IF e.op = "calls" THEN IntV(1) ELSE Err)
    ELSE IF st.o[e.o].t = "maybe" THEN Ret(st, IF e.op \in {"pack", "unpack"} /\ SureOverlap(S, st.o[e.o].i[1], e.op = "pack") THEN Err ELSE AnyV)
    ELSE LET o == st.o[e.o]  c == o.i[1]  x == st.x[e.o] IN
    CASE e.op = "get"  -> Ret(st, IF Has(S, c, e.f) THEN o.k[Ix(S, c, e.f)] ELSE Err)
      [] e.op = "all"  -> Ret(st, List(o.k))
      [] e.op = "set"  -> IF ~Has(S, c, e.f) THEN Ret(st, AnyV) ELSE Ret([st EXCEPT !.o[e.o] = Obj(c, Put(o.k, Ix(S, c, e.f), e.v))], OK)
      [] e.op = "setx" -> Ret([st EXCEPT !.x[e.o] = e.n], OK)
      [] e.op = "mut"  -> IF ~Has(S, c, e.f) THEN Ret(st, AnyV)
                          ELSE LET v == o.k[Ix(S, c, e.f)] IN
                               IF HasAny(v) THEN Ret([st EXCEPT !.o[e.o] = Obj(c, Put(o.k, Ix(S, c, e.f), AnyV))], AnyV)
                               ELSE Ret([st EXCEPT !.o[e.o] = Obj(c, Put(o.k, Ix(S, c, e.f), Mutated(v)))], OK)
      [] e.op = "pack" -> LET r == PackObj(S, o, x) IN
                          IF r.t = "val" THEN Ret([st EXCEPT !.o[e.o] = r.v.v], Bytes(BytesOf(r.v.b)))
                          ELSE Ret([st EXCEPT !.o[e.o] = Loosen(S, o)], IF r.t = "err" THEN Err ELSE AnyV)
      [] e.op = "size" -> LET r == SizeObj(S, o, x) IN
                          Ret([st EXCEPT !.o[e.o] = Loosen(S, o)], ResV(r, IntV))
      [] e.op = "unpack" -> LET r == UnpackObj(S, c, BitsOf(e.b), x) IN
                          IF r.t = "val" THEN Ret([st EXCEPT !.o[e.o] = Obj(c, r.v.v)], ResV(r.v.n, IntV))
                          ELSE Ret([st EXCEPT !.o[e.o] = Spoil(S, o)], IF r.t = "err" THEN Err ELSE AnyV)
      [] e.op = "calls" -> Ret(st, IntV(1))
==============================================================================
