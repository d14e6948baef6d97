-------------------------------- MODULE Struct --------------------------------
(* Structs: classes of fields, their objects, and what reading and writing them   *)
(* means. The subject sch.c is a sequence of classes                              *)
(*   [fs |-> fields, lv |-> leaves, cx |-> -1 or the class's context value "ver",  *)
(*    init |-> [on, ask]]                                                         *)
(* A leaf is a named field: [d |-> default, c |-> TRUE if constant]. An object is   *)
(* V("obj", <<class>>, leaf values \o <<what the user's constructor received>>).    *)
(* Fields:                                                                        *)
(*   fld/const/opt: [k, x |-> leaf, m |-> type (, v) (, pr |-> predicate)]          *)
(*   anon: [k, m]   bits: [k, s |-> sequence of [x (0: padding), w, c, v]]          *)
(*   pbits: [k, n |-> bytes, s |-> sequence of [x, sl |-> slices, c, v]]            *)
(*   lazy: [k, fs, n |-> bytes, lv |-> its leaves]        grp: [k, fs]             *)
(* Types:                                                                         *)
(*   num [n, sg, be]  flt [n, be]  cnum (a byte, xor context ver)                  *)
(*   pstr [n, pad, dir]  vstr [sz, pad, dir]  farr [n, el]  varr/sarr [sz, el]      *)
(*   map [pairs, m]  struct [c]  ptr [x]  pad [n, ch]                              *)
(*   sel [key, map, def]  fsel [f, x/n, map, def, ...]                             *)
(* One operation is e; a state holds the objects by number and one stream.          *)
EXTENDS Vals

Bad == V("bad", <<>>, <<>>)              \* not decoded yet, and its encoding is invalid
Absent == V("absent", <<>>, <<>>)
Obj(c, k) == V("obj", <<c>>, k)
RECURSIVE HasBad(_)
HasBad(v) == v.t = "bad" \/ \E j \in 1..Len(v.k) : HasBad(v.k[j])
RECURSIVE HasNaN(_)         \* which one of the NaNs it is is not specified
HasNaN(v) == (v.t = "float" /\ IsNaN(v.i)) \/ \E j \in 1..Len(v.k) : HasNaN(v.k[j])
RECURSIVE HasFloat(_)
HasFloat(v) == v.t = "float" \/ \E j \in 1..Len(v.k) : HasFloat(v.k[j])
RECURSIVE HasObj(_)
HasObj(v) == v.t = "obj" \/ \E j \in 1..Len(v.k) : HasObj(v.k[j])

Strip(b, dir, pad) == CASE dir = 0 -> b  [] dir = 1 -> RStrip(b, pad)  [] dir = 2 -> LStrip(b, pad)
                        [] dir = 3 -> LStrip(RStrip(b, pad), pad)

Class(sch, c) == sch.c[c]
Defaults(sch, c) == [j \in 1..Len(Class(sch, c).lv) |-> Class(sch, c).lv[j].d]
Asked(sch, c) == Class(sch, c).init.ask
NewObj(sch, c, got) == Obj(c, Defaults(sch, c) \o <<got>>)
Fresh(sch, c) == NewObj(sch, c, IF Class(sch, c).init.on = 1 THEN List(Rep(None, Len(Asked(sch, c)))) ELSE None)
VerIn(sch, c, ver) == IF ver >= 0 THEN ver ELSE Class(sch, c).cx

Lookup(pairs, v) == LET J == {j \in 1..Len(pairs) : pairs[j][1] = v} IN
                    IF J = {} THEN Absent ELSE pairs[CHOOSE j \in J : TRUE][2]
Xor8(a, b) == ByteAt([j \in 1..8 |-> (BitAt(BitsOf(<<a>>), j) + BitAt(BitsOf(<<b>>), j)) % 2], 0)
VerByte(ver) == IF ver >= 0 THEN ver % 256 ELSE 0

------------------------------------------------------------------------------
(* Writing: [ok, b, num]. Where writing fails, b is what precedes the failing value and  *)
(* num says that this value is a number.                                                 *)
W(b) == [ok |-> TRUE, b |-> b, num |-> FALSE]
WFail(num) == [ok |-> FALSE, b |-> <<>>, num |-> num]
Cat(b, r) == [r EXCEPT !.b = b \o @]
ModBits(v, w) ==        \* the value modulo 2^w, least significant bit first
    LET n == CeilDiv(w, 8)
        le == IF IsNeg(v) THEN NegLE(PadTo(Mag(v), n), 1) ELSE PadTo(Mag(v), n)
    IN Take(BitsOf(le), w)
SliceLen(sl) == SumSeq([j \in 1..Len(sl) |-> sl[j][2] - sl[j][1]])

RECURSIVE Write(_, _, _, _)
RECURSIVE WriteEach(_, _, _, _)
RECURSIVE WriteFields(_, _, _, _)
RECURSIVE BitsWrite(_, _)
RECURSIVE PBitsWrite(_, _, _)
WriteEach(sch, el, vs, ver) ==
    IF vs = <<>> THEN W(<<>>)
    ELSE LET r == Write(sch, el, Head(vs), ver) IN
         IF ~r.ok THEN r ELSE Cat(r.b, WriteEach(sch, el, Tail(vs), ver))
Then(r, q) == IF r.ok THEN Cat(r.b, q) ELSE r
Write(sch, m, v, ver) ==
    CASE m.k = "num"  -> IF IntFits(v, m.n, m.sg) THEN W(IntBytes(v, m.n, m.be)) ELSE WFail(TRUE)
      [] m.k = "flt"  -> LET x == IF v.t = "int" THEN V("float", IntToF64(v), <<>>) ELSE v IN
                         IF FloatFits(x, m.n) THEN W(FloatBytes(x, m.n, m.be)) ELSE WFail(TRUE)
      [] m.k = "cnum" -> IF UIntFits(v, 1) THEN W(<<Xor8(NatOf(v), VerByte(ver))>>) ELSE WFail(TRUE)
      [] m.k = "pad"  -> W(Rep(m.ch, m.n))
      [] m.k = "ptr"  -> W(<<>>)
      [] m.k = "pstr" -> IF v.t # "bytes" THEN WFail(FALSE)
                         ELSE LET b == Strip(v.i, m.dir, m.pad) IN
                              IF Len(b) > m.n \/ (Len(b) < m.n /\ m.dir = 0) THEN WFail(FALSE)
                              ELSE IF m.dir = 2 THEN W(Rep(m.pad[1], m.n - Len(b)) \o b)
                              ELSE W(b \o (IF Len(b) = m.n THEN <<>> ELSE Rep(m.pad[1], m.n - Len(b))))
      [] m.k = "vstr" -> IF v.t # "bytes" THEN WFail(FALSE)
                         ELSE LET b == Strip(v.i, m.dir, m.pad) IN
                              Then(Write(sch, m.sz, IntV(Len(b)), ver), W(b))
      [] m.k = "farr" -> IF v.t # "list" \/ Len(v.k) # m.n THEN WFail(FALSE) ELSE WriteEach(sch, m.el, v.k, ver)
      [] m.k = "varr" -> IF v.t # "list" THEN WFail(FALSE)
                         ELSE Then(Write(sch, m.sz, IntV(Len(v.k)), ver), WriteEach(sch, m.el, v.k, ver))
      [] m.k = "sarr" -> IF v.t # "list" THEN WFail(FALSE)
                         ELSE LET r == WriteEach(sch, m.el, v.k, ver) IN
                              IF ~r.ok THEN WFail(FALSE)
                              ELSE Then(Write(sch, m.sz, IntV(Len(r.b)), ver), r)
      [] m.k = "map"  -> LET x == Lookup(m.pairs, v) IN
                         IF x.t = "absent" THEN WFail(FALSE) ELSE Write(sch, m.m, x, ver)
      [] m.k \in {"struct", "sel", "fsel"} ->
                         IF v.t # "obj" THEN WFail(FALSE)
                         ELSE WriteFields(sch, Class(sch, v.i[1]).fs, v, VerIn(sch, v.i[1], ver))
BitsWrite(s, o) ==        \* [ok, b] bits
    IF s = <<>> THEN [ok |-> TRUE, b |-> <<>>]
    ELSE LET f == Head(s)
             v == IF f.x = 0 THEN IntV(0) ELSE o.k[f.x]
             r == BitsWrite(Tail(s), o)
         IN IF v.t # "int" \/ ~r.ok THEN [ok |-> FALSE, b |-> <<>>] ELSE [ok |-> TRUE, b |-> ModBits(v, f.w) \o r.b]
RECURSIVE PutSlices(_, _, _)
PutSlices(all, sl, bs) ==
    IF sl = <<>> THEN all
    ELSE LET a == Head(sl)[1]  n == Head(sl)[2] - Head(sl)[1] IN
         PutSlices([j \in 1..Len(all) |-> IF j > a /\ j <= a + n THEN bs[j - a] ELSE all[j]], Tail(sl), Drop(bs, n))
RECURSIVE GetSlices(_, _)
GetSlices(all, sl) == IF sl = <<>> THEN <<>>
                      ELSE SubSeq(all, Head(sl)[1] + 1, Head(sl)[2]) \o GetSlices(all, Tail(sl))
PBitsWrite(s, o, all) ==
    IF s = <<>> THEN [ok |-> TRUE, b |-> all]
    ELSE LET f == Head(s)  v == o.k[f.x] IN
         IF v.t # "int" THEN [ok |-> FALSE, b |-> <<>>]
         ELSE PBitsWrite(Tail(s), o, PutSlices(all, f.sl, ModBits(v, SliceLen(f.sl))))
WriteField(sch, f, o, ver) ==
    CASE f.k = "fld"   -> Write(sch, f.m, o.k[f.x], ver)
      [] f.k = "const" -> Write(sch, f.m, f.v, ver)
      [] f.k = "opt"   -> IF o.k[f.x].t = "none" THEN W(<<>>) ELSE Write(sch, f.m, o.k[f.x], ver)
      [] f.k = "anon"  -> Write(sch, f.m, None, ver)
      [] f.k = "bits"  -> LET r == BitsWrite(f.s, o) IN IF r.ok THEN W(BytesOf(r.b)) ELSE WFail(FALSE)
      [] f.k = "pbits" -> LET r == PBitsWrite(f.s, o, Rep(0, 8 * f.n)) IN IF r.ok THEN W(BytesOf(r.b)) ELSE WFail(FALSE)
      [] f.k \in {"lazy", "grp"} -> WriteFields(sch, f.fs, o, ver)
WriteFields(sch, fs, o, ver) ==
    IF fs = <<>> THEN W(<<>>)
    ELSE LET r == WriteField(sch, Head(fs), o, ver) IN
         IF ~r.ok THEN r ELSE Cat(r.b, WriteFields(sch, Tail(fs), o, ver))
WriteObj(sch, o, ver) == WriteFields(sch, Class(sch, o.i[1]).fs, o, VerIn(sch, o.i[1], ver))

------------------------------------------------------------------------------
(* Reading from s after its first p bytes: [ok, v, p, un]; un: whether this is an error is *)
(* not specified (a constant in a non-canonical encoding).                                  *)
R(v, p) == [ok |-> TRUE, v |-> v, p |-> p, un |-> FALSE]
RFail == [ok |-> FALSE, v |-> None, p |-> 0, un |-> FALSE]
Un(r, u) == [r EXCEPT !.un = @ \/ u]
Has(s, p, n) == p + n <= Len(s)
Cut(s, p, n) == SubSeq(s, p + 1, p + n)
Holds(pr, o, ver) == CASE pr.k = "yes" -> TRUE
                       [] pr.k = "no"  -> FALSE
                       [] pr.k = "eq"  -> o.k[pr.x] = pr.v
                       [] pr.k = "ne"  -> o.k[pr.x] # pr.v
                       [] pr.k = "ver" -> ver = pr.n
RECURSIVE ClassOf(_, _)
ClassOf(map, v) == IF map = <<>> THEN 0 ELSE IF Head(map)[1] = v THEN Head(map)[2] ELSE ClassOf(Tail(map), v)

RECURSIVE Read(_, _, _, _, _, _)
RECURSIVE ReadN(_, _, _, _, _, _, _, _)
RECURSIVE ReadSum(_, _, _, _, _, _, _, _)
RECURSIVE ReadFields(_, _, _, _, _, _)
RECURSIVE ReadBits(_, _, _)
ReadStruct(sch, c, s, p, ver) == ReadFields(sch, Class(sch, c).fs, Fresh(sch, c), s, p, VerIn(sch, c, ver))
(* the class is chosen by looking at the input up to la; it must consume at least that *)
ReadChosen(sch, c, s, p, la, ver) ==
    IF c = 0 THEN RFail
    ELSE LET r == ReadStruct(sch, c, s, p, ver) IN IF r.ok /\ r.p < la THEN RFail ELSE r
ReadN(sch, el, n, acc, s, p, cur, ver) ==
    IF n = 0 THEN R(List(acc), p)
    ELSE LET r == Read(sch, el, s, p, cur, ver) IN
         IF ~r.ok THEN r ELSE Un(ReadN(sch, el, n - 1, Append(acc, r.v), s, r.p, cur, ver), r.un)
ReadSum(sch, el, end, acc, s, p, cur, ver) ==
    IF p = end THEN R(List(acc), p)
    ELSE IF p > end THEN RFail
    ELSE LET r == Read(sch, el, s, p, cur, ver) IN
         IF ~r.ok THEN r ELSE IF r.p = p THEN [r EXCEPT !.un = TRUE]      \* elements that take nothing: not specified
         ELSE Un(ReadSum(sch, el, end, Append(acc, r.v), s, r.p, cur, ver), r.un)
Read(sch, m, s, p, cur, ver) ==
    CASE m.k = "num"  -> IF Has(s, p, m.n) THEN R(IntFromBytes(Cut(s, p, m.n), m.sg, m.be), p + m.n) ELSE RFail
      [] m.k = "flt"  -> IF Has(s, p, m.n) THEN R(FloatFromBytes(Cut(s, p, m.n), m.be), p + m.n) ELSE RFail
      [] m.k = "cnum" -> IF Has(s, p, 1) THEN R(IntV(Xor8(s[p + 1], VerByte(ver))), p + 1) ELSE RFail
      [] m.k = "pad"  -> IF Has(s, p, m.n) THEN R(None, p + m.n) ELSE RFail
      [] m.k = "ptr"  -> IF cur.t = "obj" /\ ~HasBad(cur.k[m.x]) THEN R(cur.k[m.x], p) ELSE RFail
      [] m.k = "pstr" -> IF Has(s, p, m.n) THEN R(Bytes(Strip(Cut(s, p, m.n), m.dir, m.pad)), p + m.n) ELSE RFail
      [] m.k = "vstr" -> LET z == Read(sch, m.sz, s, p, cur, ver) IN
                         IF ~z.ok \/ z.v.t # "int" \/ IsNeg(z.v) THEN RFail
                         ELSE LET n == NatOf(z.v) IN
                              IF Has(s, z.p, n) THEN R(Bytes(Strip(Cut(s, z.p, n), m.dir, m.pad)), z.p + n) ELSE RFail
      [] m.k = "farr" -> ReadN(sch, m.el, m.n, <<>>, s, p, cur, ver)
      [] m.k = "varr" -> LET z == Read(sch, m.sz, s, p, cur, ver) IN
                         IF ~z.ok \/ z.v.t # "int" \/ IsNeg(z.v) THEN RFail
                         ELSE ReadN(sch, m.el, NatOf(z.v), <<>>, s, z.p, cur, ver)
      [] m.k = "sarr" -> LET z == Read(sch, m.sz, s, p, cur, ver) IN
                         IF ~z.ok \/ z.v.t # "int" \/ IsNeg(z.v) THEN RFail
                         ELSE ReadSum(sch, m.el, z.p + NatOf(z.v), <<>>, s, z.p, cur, ver)
      [] m.k = "map"  -> LET r == Read(sch, m.m, s, p, cur, ver)
                             J == {j \in 1..Len(m.pairs) : m.pairs[j][2] = r.v} IN
                         IF ~r.ok \/ J = {} THEN RFail ELSE [r EXCEPT !.v = m.pairs[CHOOSE j \in J : TRUE][1]]
      [] m.k = "struct" -> ReadStruct(sch, m.c, s, p, ver)
      [] m.k = "sel"  -> LET key == Read(sch, m.key, s, p, cur, ver) IN
                         IF ~key.ok THEN RFail
                         ELSE LET c == ClassOf(m.map, key.v) IN
                              ReadChosen(sch, IF c = 0 THEN m.def ELSE c, s, p, key.p, ver)
      [] m.k = "fsel" -> IF m.f = "by" THEN
                              IF cur.t # "obj" \/ HasBad(cur.k[m.x]) THEN RFail
                              ELSE LET c == ClassOf(m.map, cur.k[m.x]) IN
                                   ReadChosen(sch, IF c = 0 THEN m.def ELSE c, s, p, p, ver)
                         ELSE IF m.f = "ver" THEN ReadChosen(sch, IF ver = m.n THEN m.map[1][2] ELSE m.def, s, p, p, ver)
                         ELSE IF ~Has(s, p, m.n) THEN RFail
                              ELSE LET c == ClassOf(m.map, IntV(s[p + m.n])) IN          \* by the last byte looked at
                                   ReadChosen(sch, IF c = 0 THEN m.def ELSE c, s, p, p + m.n, ver)
SetLeaf(o, x, v) == [o EXCEPT !.k[x] = v]
SetLeaves(o, xs, v) == [o EXCEPT !.k = [j \in 1..Len(o.k) |-> IF InSeq(j, xs) THEN v ELSE o.k[j]]]
(* bits of a group, and whether its constants are as they should be *)
ReadBits(s, o, bs) ==
    IF s = <<>> THEN [ok |-> TRUE, o |-> o]
    ELSE LET f == Head(s)  v == IntFromBits(Take(bs, f.w)) IN
         IF f.x # 0 /\ f.c /\ v # f.v THEN [ok |-> FALSE, o |-> o]
         ELSE ReadBits(Tail(s), IF f.x = 0 \/ f.c THEN o ELSE SetLeaf(o, f.x, v), Drop(bs, f.w))
RECURSIVE ReadPBits(_, _, _)
ReadPBits(s, o, bs) ==
    IF s = <<>> THEN [ok |-> TRUE, o |-> o]
    ELSE LET f == Head(s)  v == IntFromBits(GetSlices(bs, f.sl)) IN
         IF f.c /\ v # f.v THEN [ok |-> FALSE, o |-> o]
         ELSE ReadPBits(Tail(s), IF f.c THEN o ELSE SetLeaf(o, f.x, v), bs)
BitSum(s) == SumSeq([j \in 1..Len(s) |-> s[j].w])
ReadField(sch, f, o, s, p, ver) ==
    CASE f.k = "fld"   -> LET r == Read(sch, f.m, s, p, o, ver) IN [r EXCEPT !.v = SetLeaf(o, f.x, r.v)]
      [] f.k = "opt"   -> IF f.pr.k \in {"eq", "ne"} /\ HasBad(o.k[f.pr.x]) THEN RFail
                          ELSE IF ~Holds(f.pr, o, ver) THEN R(o, p)
                          ELSE LET r == Read(sch, f.m, s, p, o, ver) IN [r EXCEPT !.v = SetLeaf(o, f.x, r.v)]
      [] f.k = "anon"  -> LET r == Read(sch, f.m, s, p, o, ver) IN [r EXCEPT !.v = o]
      [] f.k = "const" -> LET r == Read(sch, f.m, s, p, o, ver)
                              same == r.ok /\ ~HasBad(r.v) /\ Write(sch, f.m, r.v, ver) = Write(sch, f.m, f.v, ver)
                              canon == r.ok /\ Cut(s, p, r.p - p) = Write(sch, f.m, f.v, ver).b
                          IN IF ~r.ok THEN r
                             ELSE IF canon THEN [r EXCEPT !.v = o]
                             ELSE IF same /\ f.m.k # "flt" THEN [r EXCEPT !.v = o, !.un = TRUE]
                             ELSE RFail
      [] f.k = "bits"  -> LET n == BitSum(f.s) \div 8 IN
                          IF ~Has(s, p, n) THEN RFail
                          ELSE LET r == ReadBits(f.s, o, BitsOf(Cut(s, p, n))) IN
                               IF r.ok THEN R(r.o, p + n) ELSE RFail
      [] f.k = "pbits" -> IF ~Has(s, p, f.n) THEN RFail
                          ELSE LET r == ReadPBits(f.s, o, BitsOf(Cut(s, p, f.n))) IN
                               IF r.ok THEN R(r.o, p + f.n) ELSE RFail
      [] f.k = "lazy"  -> IF ~Has(s, p, f.n) THEN RFail
                          ELSE LET r == ReadFields(sch, f.fs, o, Cut(s, p, f.n), 0, ver) IN
                               [R(IF r.ok THEN r.v ELSE SetLeaves(o, f.lv, Bad), p + f.n) EXCEPT !.un = r.un]
      [] f.k = "grp"   -> ReadFields(sch, f.fs, o, s, p, ver)
ReadFields(sch, fs, o, s, p, ver) ==
    IF fs = <<>> THEN R(o, p)
    ELSE LET r == ReadField(sch, Head(fs), o, s, p, ver) IN
         IF ~r.ok THEN r ELSE Un(ReadFields(sch, Tail(fs), r.v, s, r.p, ver), r.un)

------------------------------------------------------------------------------
(* Bounds of the written sizes: [lo, hi] (digits), inf: not bounded, fx: nothing in it varies. *)
B(n) == [lo |-> Digits(n), hi |-> Digits(n), inf |-> FALSE, fx |-> TRUE]
Free == [lo |-> <<>>, hi |-> <<>>, inf |-> TRUE, fx |-> FALSE]
BAdd(a, b) == [lo |-> BigAdd(a.lo, b.lo), hi |-> BigAdd(a.hi, b.hi), inf |-> a.inf \/ b.inf, fx |-> a.fx /\ b.fx]
BTimes(a, ds) == [lo |-> BigMul(a.lo, ds), hi |-> BigMul(a.hi, ds), inf |-> a.inf /\ ds # <<>>, fx |-> a.fx \/ ds = <<>>]
RECURSIVE BSum(_)
BSum(bs) == IF bs = <<>> THEN B(0) ELSE BAdd(Head(bs), BSum(Tail(bs)))
RECURSIVE BEither(_)
BEither(bs) == IF Len(bs) = 1 THEN bs[1]
               ELSE LET r == BEither(Tail(bs)) IN
                    [lo |-> BigMin(Head(bs).lo, r.lo), hi |-> BigMax(Head(bs).hi, r.hi), inf |-> Head(bs).inf \/ r.inf,
                     fx |-> Head(bs).fx /\ r.fx /\ Head(bs).lo = r.lo /\ ~r.inf /\ ~Head(bs).inf]
Top(m) == Rep(255, m.n)       \* the largest count or size such a number can say
IsPtr(m) == m.k = "ptr"
RECURSIVE Bounds(_, _)
RECURSIVE FBounds(_, _)
CBounds(sch, c) == BSum([j \in 1..Len(Class(sch, c).fs) |-> FBounds(sch, Class(sch, c).fs[j])])
Bounds(sch, m) ==
    CASE m.k \in {"num", "flt", "pad", "pstr"} -> B(m.n)
      [] m.k = "cnum" -> B(1)
      [] m.k = "ptr"  -> B(0)
      [] m.k = "vstr" -> IF IsPtr(m.sz) THEN Free
                         ELSE [lo |-> Digits(m.sz.n), hi |-> BigAdd(Digits(m.sz.n), Top(m.sz)), inf |-> FALSE, fx |-> FALSE]
      [] m.k = "farr" -> BTimes(Bounds(sch, m.el), Digits(m.n))
      [] m.k = "varr" -> LET x == Bounds(sch, m.el) IN
                         IF x.hi = <<>> /\ ~x.inf THEN (IF IsPtr(m.sz) THEN [B(0) EXCEPT !.fx = FALSE] ELSE B(m.sz.n))
                         ELSE IF IsPtr(m.sz) THEN Free
                         ELSE LET all == BTimes(x, Top(m.sz)) IN
                              [lo |-> Digits(m.sz.n), hi |-> BigAdd(Digits(m.sz.n), all.hi), inf |-> all.inf, fx |-> FALSE]
      [] m.k = "sarr" -> IF IsPtr(m.sz) THEN Free
                         ELSE LET x == NatOfDigits(Bounds(sch, m.el).lo) IN      \* the last byte may not be usable
                              [lo |-> Digits(m.sz.n), hi |-> BigAdd(Digits(m.sz.n - 1), Norm([Top(m.sz) EXCEPT ![1] = 256 - Max2(1, x)])),
                               inf |-> FALSE, fx |-> FALSE]
      [] m.k = "map"  -> Bounds(sch, m.m)
      [] m.k = "struct" -> CBounds(sch, m.c)
      [] m.k = "sel"  -> BEither([j \in 1..Len(m.map) |-> CBounds(sch, m.map[j][2])] \o
                                 (IF m.def = 0 THEN <<>> ELSE <<CBounds(sch, m.def)>>))
      [] m.k = "fsel" -> [BEither([j \in 1..Len(m.map) |-> CBounds(sch, m.map[j][2])] \o
                                  (IF m.def = 0 THEN <<>> ELSE <<CBounds(sch, m.def)>>)) EXCEPT !.fx = FALSE]
FBounds(sch, f) ==
    CASE f.k = "fld"   -> Bounds(sch, f.m)
      [] f.k = "anon"  -> Bounds(sch, f.m)
      [] f.k = "const" -> LET n == Digits(Len(Write(sch, f.m, f.v, -1).b)) IN
                          [lo |-> n, hi |-> n, inf |-> FALSE, fx |-> Bounds(sch, f.m).fx]
      [] f.k = "opt"   -> LET b == Bounds(sch, f.m) IN [b EXCEPT !.lo = <<>>, !.fx = @ /\ b.hi = <<>>]
      [] f.k = "bits"  -> B(BitSum(f.s) \div 8)
      [] f.k \in {"pbits", "lazy"} -> B(f.n)
      [] f.k = "grp"   -> BSum([j \in 1..Len(f.fs) |-> FBounds(sch, f.fs[j])])
BoundsV(b) == V("bounds", <<IF b.fx THEN 1 ELSE 0>>,
                <<BigV(0, BigMin(b.lo, MaxSize)), BigV(0, IF b.inf THEN MaxSize ELSE BigMin(b.hi, MaxSize))>>)
FixedV(b) == IF b.fx THEN IntV(1) ELSE IF b.inf \/ b.lo # b.hi THEN IntV(0) ELSE AnyV

------------------------------------------------------------------------------
(* Values inside values: a path is a sequence of leaves and (1-based) elements *)
RECURSIVE GetAt(_, _)
GetAt(v, path) ==
    IF path = <<>> THEN v
    ELSE IF v.t \notin {"obj", "list"} \/ Head(path) > Len(v.k) THEN Absent
    ELSE GetAt(v.k[Head(path)], Tail(path))
RECURSIVE SetAt(_, _, _)
SetAt(v, path, x) == IF path = <<>> THEN x ELSE [v EXCEPT !.k[Head(path)] = SetAt(v.k[Head(path)], Tail(path), x)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

NO == 4
Init0(sch) == [o |-> [j \in 1..NO |-> Absent], w |-> <<>>, p |-> 0, dead |-> FALSE]
Leaf(sch, v, x) == Class(sch, v.i[1]).lv[x]
(* what the user's constructor receives: by position, then by name, else its default *)
GotArg(e, ask, j) == IF j <= Len(e.pos) THEN e.pos[j]
                     ELSE LET J == {i \in 1..Len(e.kw) : e.kw[i].x = ask[j]} IN
                          IF J = {} THEN None ELSE e.kw[CHOOSE i \in J : TRUE].v
RECURSIVE Given(_, _, _)
Given(sch, o, kw) == IF kw = <<>> THEN o
                     ELSE Given(sch, IF Head(kw).x < 1 \/ Leaf(sch, o, Head(kw).x).c THEN o
                                     ELSE SetLeaf(o, Head(kw).x, Head(kw).v), Tail(kw))
(* printing is specified for objects whose values are unset or of the right kind *)
RECURSIVE Prints(_, _, _)
RECURSIVE FPrints(_, _, _)
Prints(sch, m, v) ==
    IF v.t = "none" THEN FALSE
    ELSE CASE m.k \in {"num", "cnum"} -> v.t = "int"
           [] m.k = "flt" -> v.t \in {"float", "int"}
           [] m.k \in {"pstr", "vstr"} -> v.t = "bytes"
           [] m.k \in {"farr", "varr", "sarr"} -> v.t = "list" /\ \A j \in 1..Len(v.k) : Prints(sch, m.el, v.k[j])
           [] m.k \in {"struct", "sel", "fsel"} -> v.t = "obj" /\ \A j \in 1..Len(Class(sch, v.i[1]).fs) : FPrints(sch, Class(sch, v.i[1]).fs[j], v)
           [] OTHER -> TRUE
FPrints(sch, f, o) ==
    CASE f.k \in {"fld", "opt"} -> o.k[f.x].t = "none" \/ Prints(sch, f.m, o.k[f.x])
      [] f.k \in {"bits", "pbits"} -> \A j \in 1..Len(f.s) : f.s[j].x = 0 \/ o.k[f.s[j].x].t \in {"none", "int"}
      [] f.k \in {"lazy", "grp"} -> \A j \in 1..Len(f.fs) : FPrints(sch, f.fs[j], o)
      [] OTHER -> TRUE
ObjPrints(sch, o) == ~HasBad(o) /\ Prints(sch, [k |-> "struct"], o)

Unsure(v) == v.t = "any"
Keep(st, res) == [st |-> st, res |-> res]
Put1(st, o, v, res) == [st |-> [st EXCEPT !.o[o] = v], res |-> res]
SerV(r) == IF r.ok THEN Bytes(r.b) ELSE Err
(* the outcome of reading one object *)
Got(sch, st, e, s) == LET r == ReadStruct(sch, e.c, s, 0, e.ver) IN
    IF ~r.ok THEN Put1(st, e.o, Absent, Err)
    ELSE IF r.un THEN Put1(st, e.o, AnyV, AnyV)
    ELSE IF HasNaN(r.v) THEN Put1(st, e.o, AnyV, OK)
    ELSE Put1(st, e.o, r.v, OK)
Accepts(sch, c, s, ver) == LET r == ReadStruct(sch, c, s, 0, ver) IN
    IF ~r.ok \/ HasBad(r.v) THEN IntV(0) ELSE IF r.un THEN AnyV ELSE IntV(1)

CutsOf(n) == IF n <= 64 THEN [j \in 1..n + 1 |-> j - 1] ELSE [j \in 1..33 |-> ((j - 1) * n) \div 32]

Step(sch, st, e) ==
    CASE e.op = "new" ->
           LET got == IF Class(sch, e.c).init.on = 1
                      THEN List([j \in 1..Len(Asked(sch, e.c)) |-> GotArg(e, Asked(sch, e.c), j)]) ELSE None
           IN Put1(st, e.o, Given(sch, NewObj(sch, e.c, got), e.kw), OK)
      [] e.op = "de" -> Got(sch, st, e, e.d)
      [] e.op \in {"get", "ser", "part", "size", "rep", "set", "app", "wr", "cuts"} /\ Unsure(st.o[e.o]) ->
           Keep(IF e.op = "wr" THEN [st EXCEPT !.dead = TRUE] ELSE st, AnyV)
      [] e.op \in {"get", "ser", "part", "size", "rep", "set", "app", "wr", "cuts"} /\ st.o[e.o].t = "absent" ->
           Keep(st, Err)
      [] e.op = "cuts" -> LET o == st.o[e.o]  r == WriteObj(sch, o, e.ver) IN
           IF HasBad(o) \/ ~r.ok THEN Keep(st, AnyV)
           ELSE Keep(st, List([j \in 1..Len(CutsOf(Len(r.b))) |->
                                   Accepts(sch, o.i[1], SubSeq(r.b, 1, CutsOf(Len(r.b))[j]), e.ver)]))
      [] e.op = "get"  -> LET v == GetAt(st.o[e.o], e.path) IN
                          Keep(st, IF v.t = "absent" \/ HasBad(v) THEN Err ELSE v)
      [] e.op = "set"  -> LET o == st.o[e.o]  h == GetAt(o, Front(e.path))  x == e.path[Len(e.path)] IN
                          IF h.t \notin {"obj", "list"} \/ x > Len(h.k) THEN Keep(st, Err)
                          ELSE IF h.k[x].t = "bad" THEN Keep(st, Err)
                          ELSE IF h.t = "obj" /\ Leaf(sch, h, x).c THEN
                               Keep(st, IF HasObj(h.k[x]) \/ (h.k[x] # e.v /\ (HasFloat(h.k[x]) \/ HasFloat(e.v))) THEN AnyV ELSE IF h.k[x] = e.v THEN OK ELSE Err)
                          ELSE Put1(st, e.o, SetAt(o, e.path, e.v), OK)
      [] e.op = "app"  -> LET o == st.o[e.o]  l == GetAt(o, e.path) IN
                          IF l.t # "list" THEN Keep(st, Err)
                          ELSE Put1(st, e.o, SetAt(o, e.path, List(Append(l.k, e.v))), OK)
      [] e.op = "ser"  -> LET o == st.o[e.o] IN Keep(st, IF HasBad(o) THEN Err ELSE SerV(WriteObj(sch, o, e.ver)))
      [] e.op = "part" -> LET o == st.o[e.o]  r == WriteObj(sch, o, e.ver) IN      \* what a failing write leaves in the stream
                          Keep(st, IF HasBad(o) THEN AnyV
                                   ELSE IF r.ok THEN Bytes(r.b) ELSE IF r.num THEN V("prefix", r.b, <<>>) ELSE AnyV)
      [] e.op = "size" -> LET o == st.o[e.o]  r == WriteObj(sch, o, -1) IN
                          Keep(st, IF HasBad(o) \/ ~r.ok THEN AnyV ELSE IntV(Len(r.b)))
      [] e.op = "rep"  -> Keep(st, IF ObjPrints(sch, st.o[e.o]) THEN OK ELSE AnyV)
      \* one stream: records are appended, then read from its beginning
      [] e.op = "rd" /\ st.dead -> Put1(st, e.o, AnyV, AnyV)
      [] e.op \in {"wr", "raw", "left"} /\ st.dead -> Keep(st, AnyV)
      [] e.op = "wr"   -> LET o == st.o[e.o]  r == WriteObj(sch, o, e.ver) IN
                          IF HasBad(o) \/ ~r.ok THEN Keep(st, Err)
                          ELSE Keep([st EXCEPT !.w = @ \o r.b], OK)
      [] e.op = "raw"  -> Keep([st EXCEPT !.w = @ \o e.d], OK)
      [] e.op = "open" -> Keep([st EXCEPT !.p = 0], OK)
      [] e.op = "rd"   -> LET r == ReadStruct(sch, e.c, st.w, st.p, e.ver) IN
                          IF ~r.ok THEN Put1([st EXCEPT !.dead = TRUE], e.o, Absent, Err)
                          ELSE IF r.un THEN Put1([st EXCEPT !.dead = TRUE], e.o, AnyV, AnyV)
                          ELSE Put1([st EXCEPT !.p = r.p], e.o, IF HasNaN(r.v) THEN AnyV ELSE r.v, OK)
      [] e.op = "left" -> Keep(st, Bytes(Drop(st.w, st.p)))
      \* classes and types
      [] e.op = "mm"   -> Keep(st, BoundsV(CBounds(sch, e.c)))
      [] e.op = "mmf"  -> LET b == FBounds(sch, Class(sch, e.c).fs[e.j]) IN Keep(st, BoundsV(b))
      [] e.op = "fix"  -> Keep(st, FixedV(FBounds(sch, Class(sch, e.c).fs[e.j])))
      [] e.op = "mmm"  -> Keep(st, BoundsV(Bounds(sch, e.m)))
      [] e.op = "mser" -> Keep(st, SerV(Write(sch, e.m, e.v, e.ver)))
      [] e.op = "msize" -> LET r == Write(sch, e.m, e.v, -1) IN Keep(st, IF r.ok THEN IntV(Len(r.b)) ELSE AnyV)
      [] e.op = "mde"  -> LET r == Read(sch, e.m, e.d, 0, None, e.ver) IN
                          Keep(st, IF r.un THEN AnyV ELSE IF r.ok /\ ~HasBad(r.v) THEN List(<<r.v, IntV(r.p)>>) ELSE Err)
      [] e.op = "nobytes" -> Keep(st, Err)
==============================================================================
