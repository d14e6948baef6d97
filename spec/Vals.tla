-------------------------------- MODULE Vals --------------------------------
(* Values, numbers, text and bits as the specification sees them.            *)
(*                                                                           *)
(* Every value that crosses the boundary between the specification and the   *)
(* implementation has one shape, [t: tag, i: sequence of integers, k:        *)
(* sequence of values], so equality never compares different kinds:          *)
(*   none                                                                    *)
(*   int    i = <<sign>> \o magnitude, base 256, least significant first     *)
(*   float  i = the 8 bytes of the IEEE double, most significant first       *)
(*   bytes  i = the bytes          str  i = the code points                  *)
(*   list   k = the elements       obj  i = <<class>>, k = the field values  *)
(*   ok / err / hang: outcomes     any: unconstrained (specification only)   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(t, i, k) == [t |-> t, i |-> i, k |-> k]
None   == V("none", <<>>, <<>>)
Err    == V("err", <<>>, <<>>)
OK     == V("ok", <<>>, <<>>)
AnyV   == V("any", <<>>, <<>>)
Bytes(b) == V("bytes", b, <<>>)
Str(s)   == V("str", s, <<>>)
List(k)  == V("list", <<>>, k)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE MagLeqFrom(_, _, _)
MagLeqFrom(a, b, j) == j = 1 \/ a[j] < b[j] \/ (a[j] = b[j] /\ MagLeqFrom(a, b, j - 1))
(* An expected value matches an observed one. "any" matches everything, "prefix"  *)
(* any prefix of its bytes; "bounds" a pair [min, max] around its own two numbers,  *)
(* which must be equal to them if its flag says so.                                 *)
MagLeq(a, b) == a.t = "int" /\ b.t = "int" /\ (Len(a.i) < Len(b.i) \/ (Len(a.i) = Len(b.i) /\ MagLeqFrom(a.i, b.i, Len(a.i))))
RECURSIVE Match(_, _)
Match(e, a) ==
    \/ e.t = "any" /\ a.t # "hang"
    \/ /\ e.t = "prefix" /\ a.t = "bytes" /\ Len(a.i) <= Len(e.i)
       /\ a.i = SubSeq(e.i, 1, Len(a.i))
    \/ /\ e.t = "bounds" /\ a.t = "list" /\ Len(a.k) = 2
       /\ IF e.i = <<1>> THEN a.k = e.k ELSE MagLeq(a.k[1], e.k[1]) /\ MagLeq(e.k[2], a.k[2])
    \/ /\ e.t = a.t
       /\ e.i = a.i
       /\ Len(e.k) = Len(a.k)
       /\ \A j \in 1..Len(e.k) : Match(e.k[j], a.k[j])

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Rep(x, n) == [j \in 1..n |-> x]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Put(s, j, x) == [s EXCEPT ![j] = x]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

------------------------------------------------------------------------------
(* Natural numbers as base-256 digits, least significant first, no trailing zeros. *)
RECURSIVE Norm(_)
Norm(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN Norm(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Digits(n \div 256)

Dig(ds, j) == IF j <= Len(ds) THEN ds[j] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, j, c) ==
    IF j > Len(a) /\ j > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Dig(a, j) + Dig(b, j) + c IN <<s % 256>> \o AddFrom(a, b, j + 1, s \div 256)
BigAdd(a, b) == Norm(AddFrom(a, b, 1, 0))

RECURSIVE MulSmall(_, _, _)
MulSmall(a, d, c) ==
    IF a = <<>> THEN Digits(c)
    ELSE LET s == a[1] * d + c IN <<s % 256>> \o MulSmall(Tail(a), d, s \div 256)
RECURSIVE BigMul0(_, _)
BigMul0(a, b) == IF b = <<>> THEN <<>> ELSE BigAdd(Norm(MulSmall(a, b[1], 0)), <<0>> \o BigMul0(a, Tail(b)))
BigMul(a, b) == Norm(BigMul0(a, b))

RECURSIVE BigLeqFrom(_, _, _)
BigLeqFrom(a, b, j) == \/ j = 0
                       \/ a[j] < b[j]
                       \/ a[j] = b[j] /\ BigLeqFrom(a, b, j - 1)
BigLeq(a, b) == \/ Len(a) < Len(b)
                \/ Len(a) = Len(b) /\ BigLeqFrom(a, b, Len(a))
BigMin(a, b) == IF BigLeq(a, b) THEN a ELSE b
BigMax(a, b) == IF BigLeq(a, b) THEN b ELSE a
MaxSize == <<255, 255, 255, 255, 255, 255, 255, 127>>     \* sys.maxsize

(* in decimal *)
RECURSIVE DivTen(_, _, _)        \* digits, most significant first: <<quotient, remainder>>
DivTen(ds, r, q) == IF ds = <<>> THEN <<q, r>>
                    ELSE LET x == 256 * r + ds[1] IN DivTen(Tail(ds), x % 10, Append(q, x \div 10))
RECURSIVE Decimal(_)             \* characters of a natural number
Decimal(ds) == LET d == DivTen(Rev(ds), 0, <<>>)
                   q == Norm(Rev(d[1]))
               IN (IF q = <<>> THEN <<>> ELSE Decimal(q)) \o <<48 + d[2]>>

------------------------------------------------------------------------------
(* Integers *)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
IntV(n) == V("int", <<IF n < 0 THEN 1 ELSE 0>> \o Digits(Abs(n)), <<>>)
BigV(s, ds) == LET m == Norm(ds) IN V("int", <<IF m = <<>> THEN 0 ELSE s>> \o m, <<>>)
IsNeg(v) == v.i[1] = 1
Mag(v) == Tail(v.i)
BIG == 1073741824       \* "at least 2^30": sizes that large are only compared
RECURSIVE NatOfDigits(_)
NatOfDigits(ds) == IF ds = <<>> THEN 0 ELSE ds[1] + 256 * NatOfDigits(Tail(ds))
NatOf(v) == LET m == Mag(v) IN
            IF Len(m) > 4 \/ (Len(m) = 4 /\ m[4] >= 64) THEN BIG ELSE NatOfDigits(m)
IntOf(v) == IF IsNeg(v) THEN 0 - NatOf(v) ELSE NatOf(v)

PadTo(ds, n) == [j \in 1..n |-> Dig(ds, j)]
(* two's complement negation of a little endian byte string *)
RECURSIVE NegLE(_, _)
NegLE(ds, c) == IF ds = <<>> THEN <<>>
                ELSE LET x == 255 - ds[1] + c IN <<x % 256>> \o NegLE(Tail(ds), x \div 256)

UIntFits(v, n) == v.t = "int" /\ ~IsNeg(v) /\ Len(Mag(v)) <= n
SIntFits(v, n) ==
    /\ v.t = "int"
    /\ LET m == Mag(v) IN
       IF IsNeg(v) THEN \/ Len(m) < n
                        \/ Len(m) = n /\ m[n] < 128
                        \/ Len(m) = n /\ m[n] = 128 /\ \A j \in 1..n-1 : m[j] = 0
       ELSE Len(m) < n \/ (Len(m) = n /\ m[n] < 128)
IntFits(v, n, sg) == IF sg THEN SIntFits(v, n) ELSE UIntFits(v, n)
(* n bytes, big or little endian *)
IntBytes(v, n, be) ==
    LET le == IF IsNeg(v) THEN NegLE(PadTo(Mag(v), n), 1) ELSE PadTo(Mag(v), n)
    IN IF be THEN Rev(le) ELSE le
IntFromBytes(b, sg, be) ==
    LET le == IF be THEN Rev(b) ELSE b IN
    IF sg /\ le # <<>> /\ le[Len(le)] >= 128 THEN BigV(1, NegLE(le, 1)) ELSE BigV(0, le)

------------------------------------------------------------------------------
(* IEEE-754. A double is its 8 bytes, most significant first. *)
FSign(d) == d[1] \div 128
FExp(d)  == (d[1] % 128) * 16 + d[2] \div 16
FTop23(d) == (d[2] % 16) * 524288 + d[3] * 2048 + d[4] * 8 + d[5] \div 32      \* top 23 mantissa bits
FRestHi(d) == d[5] % 32                                                      \* next 5 bits
FRestLo(d) == d[6] # 0 \/ d[7] # 0 \/ d[8] # 0
FZeroMant(d) == FTop23(d) = 0 /\ FRestHi(d) = 0 /\ ~FRestLo(d)
IsNaN(d) == FExp(d) = 2047 /\ ~FZeroMant(d)
P23 == 8388608
F32(s, e, m) == <<s * 128 + e \div 2, (e % 2) * 128 + m \div 65536, (m \div 256) % 256, m % 256>>

(* [ok, b]: double to single, round to nearest even; too large a number does not fit *)
ToF32(d) ==
    LET s == FSign(d)  e == FExp(d)  m == FTop23(d)
        r == FRestHi(d)  lo == FRestLo(d)
        E == e - 1023 IN
    IF e = 2047 THEN [ok |-> TRUE, b |-> F32(s, 255, IF FZeroMant(d) THEN 0 ELSE 4194304)]
    ELSE IF e = 0 THEN [ok |-> TRUE, b |-> F32(s, 0, 0)]
    ELSE IF E >= -126 THEN
        LET up == r > 16 \/ (r = 16 /\ (lo \/ m % 2 = 1))
            m2 == IF up THEN m + 1 ELSE m
            E2 == IF m2 = P23 THEN E + 1 ELSE E
            m3 == IF m2 = P23 THEN 0 ELSE m2
        IN IF E2 > 127 THEN [ok |-> FALSE, b |-> <<>>]
           ELSE [ok |-> TRUE, b |-> F32(s, E2 + 127, m3)]
    ELSE LET sh == -126 - E IN
        IF sh > 24 THEN [ok |-> TRUE, b |-> F32(s, 0, 0)]
        ELSE LET sig == P23 + m
                 q == sig \div 2^sh
                 rem == sig % 2^sh
                 half == 2^(sh - 1)
                 sticky == r # 0 \/ lo
                 up == rem > half \/ (rem = half /\ (sticky \/ q % 2 = 1))
                 q2 == IF up THEN q + 1 ELSE q
             IN [ok |-> TRUE, b |-> F32(s, q2 \div P23, q2 % P23)]

D64(s, e, m23) == <<s * 128 + e \div 16, (e % 16) * 16 + m23 \div 524288,
                    (m23 \div 2048) % 256, (m23 \div 8) % 256, (m23 % 8) * 32, 0, 0, 0>>
RECURSIVE NormalizeSub(_, _)
NormalizeSub(m, e) == IF m >= P23 THEN <<m - P23, e>> ELSE NormalizeSub(2 * m, e - 1)
FromF32(b) ==
    LET s == b[1] \div 128  e == (b[1] % 128) * 2 + b[2] \div 128
        m == (b[2] % 128) * 65536 + b[3] * 256 + b[4] IN
    IF e = 255 THEN D64(s, 2047, IF m = 0 THEN 0 ELSE 4194304)
    ELSE IF e = 0 /\ m = 0 THEN D64(s, 0, 0)
    ELSE IF e = 0 THEN LET n == NormalizeSub(m, 897) IN D64(s, n[2], n[1])
    ELSE D64(s, e + 896, m)

(* small integers as doubles *)
IntToF64(v) == LET m == NatOf(v) IN
               IF m = 0 THEN Rep(0, 8) ELSE LET n == NormalizeSub(m, 1046) IN D64(v.i[1], n[2], n[1])

(* Plain fractions: multiples of 1/1024 below 16384. Their decimal text is exact, and short. *)
FUnits(d) ==         \* how many 1/1024s, or -1
    LET e == FExp(d) - 1023  m == P23 + FTop23(d) IN
    IF FExp(d) = 0 /\ FZeroMant(d) THEN 0
    ELSE IF e < 0-10 \/ e > 13 \/ FRestHi(d) # 0 \/ FRestLo(d) THEN 0-1
    ELSE IF e = 13 THEN m
    ELSE IF (m % 2^(13 - e)) # 0 THEN 0-1 ELSE m \div 2^(13 - e)
FOfUnits(s, n) == IF n = 0 THEN <<s * 128>> \o Rep(0, 7)
                  ELSE LET x == NormalizeSub(n, 1046) IN D64(s, x[2] - 10, x[1])
RECURSIVE FracText(_)
FracText(f) == IF f = 0 THEN <<>> ELSE <<48 + (10 * f) \div 1024>> \o FracText((10 * f) % 1024)
FText(d) == LET n == FUnits(d) IN (IF FSign(d) = 1 THEN <<45>> ELSE <<>>) \o Decimal(Digits(n \div 1024)) \o <<46>>
                                  \o (IF (n % 1024) = 0 THEN <<48>> ELSE FracText(n % 1024))
(* the 1/1024s in decimals 0.ds, or -1 when they are no whole number *)
RECURSIVE Twice(_, _)            \* the digits doubled, last first: <<carry, digits>>
Twice(ds, c) == IF ds = <<>> THEN <<c, <<>>>>
                ELSE LET x == 2 * ds[Len(ds)] + c
                         r == Twice(SubSeq(ds, 1, Len(ds) - 1), x \div 10)
                     IN <<r[1], Append(r[2], x % 10)>>
RECURSIVE FracUnits(_, _, _)
FracUnits(ds, k, acc) == IF k = 0 THEN (IF \A j \in 1..Len(ds) : ds[j] = 0 THEN acc ELSE 0-1)
                         ELSE LET t == Twice(ds, 0) IN FracUnits(t[2], k - 1, 2 * acc + t[1])

FloatFits(v, n) == v.t = "float" /\ (n = 8 \/ ToF32(v.i).ok)
FloatBytes(v, n, be) == LET b == IF n = 8 THEN v.i ELSE ToF32(v.i).b IN IF be THEN b ELSE Rev(b)
CanonNaN(d) == IF IsNaN(d) THEN <<127, 248, 0, 0, 0, 0, 0, 0>> ELSE d
FloatFromBytes(b, be) ==
    LET x == IF be THEN b ELSE Rev(b)
    IN V("float", CanonNaN(IF Len(b) = 8 THEN x ELSE FromF32(x)), <<>>)

------------------------------------------------------------------------------
(* Bits of bytes: least significant bit first *)
BitsOf(bs) == [j \in 1..8 * Len(bs) |-> (bs[(j - 1) \div 8 + 1] \div 2^((j - 1) % 8)) % 2]
BitAt(s, j) == IF j <= Len(s) THEN s[j] ELSE 0
ByteAt(s, o) == BitAt(s, o+1) + 2*BitAt(s, o+2) + 4*BitAt(s, o+3) + 8*BitAt(s, o+4)
                + 16*BitAt(s, o+5) + 32*BitAt(s, o+6) + 64*BitAt(s, o+7) + 128*BitAt(s, o+8)
(* zero-filled to whole bytes *)
BytesOf(s) == [j \in 1..CeilDiv(Len(s), 8) |-> ByteAt(s, 8 * (j - 1))]
(* a non-negative integer in n bits, least significant first *)
BitsFit(v, n) == v.t = "int" /\ ~IsNeg(v) /\ LET b == BitsOf(Mag(v)) IN \A j \in 1..Len(b) : j <= n \/ b[j] = 0
IntBits(v, n) == LET b == BitsOf(Mag(v)) IN [j \in 1..n |-> BitAt(b, j)]
IntFromBits(s) == BigV(0, BytesOf(s))

------------------------------------------------------------------------------
(* Text encodings: [ok, b] / [ok, s] *)
NoText == [ok |-> FALSE, b |-> <<>>]
Utf8Char(c) == IF c < 128 THEN <<c>>
               ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
               ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
               ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(s, enc) ==
    IF enc = "ascii" THEN IF \A j \in 1..Len(s) : s[j] < 128 THEN [ok |-> TRUE, b |-> s] ELSE NoText
    ELSE IF enc = "latin-1" THEN IF \A j \in 1..Len(s) : s[j] < 256 THEN [ok |-> TRUE, b |-> s] ELSE NoText
    ELSE [ok |-> TRUE, b |-> Concat([j \in 1..Len(s) |-> Utf8Char(s[j])])]
IsCont(b, j) == j <= Len(b) /\ b[j] \div 64 = 2
RECURSIVE Utf8Dec(_, _)
Utf8Dec(b, j) ==
    IF j > Len(b) THEN [ok |-> TRUE, b |-> <<>>]
    ELSE LET x == b[j]
             n == IF x < 128 THEN 1 ELSE IF x >= 194 /\ x < 224 THEN 2
                  ELSE IF x >= 224 /\ x < 240 THEN 3 ELSE IF x >= 240 /\ x < 245 THEN 4 ELSE 0 IN
         IF n = 0 THEN NoText
         ELSE IF n > 1 /\ ~(\A d \in 1..n-1 : IsCont(b, j + d)) THEN NoText
         ELSE LET c == IF n = 1 THEN x
                       ELSE IF n = 2 THEN (x % 32) * 64 + (b[j+1] % 64)
                       ELSE IF n = 3 THEN (x % 16) * 4096 + (b[j+1] % 64) * 64 + (b[j+2] % 64)
                       ELSE (x % 8) * 262144 + (b[j+1] % 64) * 4096 + (b[j+2] % 64) * 64 + (b[j+3] % 64)
                  bad == \/ n = 3 /\ (c < 2048 \/ (c >= 55296 /\ c < 57344))
                         \/ n = 4 /\ (c < 65536 \/ c > 1114111)
              IN IF bad THEN NoText
                 ELSE LET r == Utf8Dec(b, j + n) IN IF r.ok THEN [ok |-> TRUE, b |-> <<c>> \o r.b] ELSE NoText
Decode(b, enc) ==
    IF enc = "ascii" THEN IF \A j \in 1..Len(b) : b[j] < 128 THEN [ok |-> TRUE, b |-> b] ELSE NoText
    ELSE IF enc = "latin-1" THEN [ok |-> TRUE, b |-> b]
    ELSE Utf8Dec(b, 1)

InSeq(x, s) == \E j \in 1..Len(s) : s[j] = x
RECURSIVE RStrip(_, _)
RStrip(s, set) == IF s # <<>> /\ InSeq(s[Len(s)], set) THEN RStrip(SubSeq(s, 1, Len(s) - 1), set) ELSE s
RECURSIVE LStrip(_, _)
LStrip(s, set) == IF s # <<>> /\ InSeq(s[1], set) THEN LStrip(Tail(s), set) ELSE s
==============================================================================
