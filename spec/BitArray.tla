------------------------------- MODULE BitArray -------------------------------
(* Bit arrays and bit views: a handle denotes a sequence of bits.              *)
(* State st: handle |-> [b: bits, mut: is it mutable].                         *)
EXTENDS Vals

Ofs(o, n) == IF o < 0 THEN Max2(o + n, 0) ELSE Min2(o, n)      \* clamped, negative counts from the end
Splice(b, lo, hi, x) == SubSeq(b, 1, lo) \o x \o SubSeq(b, hi + 1, Len(b))
Zeros(n) == [j \in 1..n |-> 0]
BitsV(b) == V("bits", b, <<>>)

(* The bits a replacement value stands for, given the length of the range it replaces. *)
ValBits(v, n) ==
    CASE v.t = "bits"  -> [ok |-> TRUE, b |-> v.i]
      [] v.t = "bytes" -> [ok |-> TRUE, b |-> BitsOf(v.i)]
      [] v.t = "int"   -> IF n > 0 /\ BitsFit(v, n) THEN [ok |-> TRUE, b |-> IntBits(v, n)]
                          ELSE [ok |-> FALSE, b |-> <<>>]
      [] OTHER         -> [ok |-> FALSE, b |-> <<>>]

Bad(st) == [st |-> st, res |-> Err]
Upd(st, h, b, res) == [st |-> [st EXCEPT ![h].b = b], res |-> res]
Mk(st, h, b, m) == [st |-> [st EXCEPT ![h] = [b |-> b, mut |-> m]], res |-> BitsV(b)]
BitStr(b) == V("str", [j \in 1..Len(b) |-> 48 + b[Len(b) + 1 - j]], <<>>)

(* Every edit reports the sequence of bits it leaves behind. *)
Edit(st, h, b) == Upd(st, h, b, BitsV(b))

Step(sch, st, e) ==
    LET h == e.h  b == st[h].b  n == Len(b)
        hasR == "lo" \in DOMAIN e
        lo == IF hasR THEN Ofs(e.lo, n) ELSE 0
        hi == IF hasR THEN Ofs(e.hi, n) ELSE 0
    IN CASE e.op = "new"    -> Mk(st, h, e.v.i, e.mut = 1)
         [] e.op = "bits"   -> [st |-> st, res |-> BitsV(b)]
         [] e.op = "len"    -> [st |-> st, res |-> List(<<IntV(n), IntV(CeilDiv(n, 8))>>)]
         [] e.op = "bytes"  -> [st |-> st, res |-> Bytes(BytesOf(b))]
         [] e.op = "barr"   -> [st |-> st, res |-> Bytes(BytesOf(b))]
         [] e.op = "iter"   -> [st |-> st, res |-> Bytes(BytesOf(b))]
         [] e.op = "str"    -> [st |-> st, res |-> BitStr(b)]
         [] e.op = "byte"   -> LET o == Ofs(e.lo, n) IN
                               [st |-> st, res |-> IF o >= n THEN AnyV ELSE
                                    IntFromBits(SubSeq(b, o + 1, Min2(o + 8, n)))]
         [] e.op = "slice"  -> IF lo > hi THEN Bad(st)
                               ELSE Mk(st, e.g, SubSeq(b, lo + 1, hi), st[h].mut)
         [] e.op = "set"    -> IF lo > hi THEN Bad(st) ELSE
                               LET x == ValBits(e.v, hi - lo) IN
                               IF x.ok THEN Edit(st, h, Splice(b, lo, hi, x.b)) ELSE Bad(st)
         [] e.op = "del"    -> IF lo > hi THEN Bad(st) ELSE Edit(st, h, Splice(b, lo, hi, <<>>))
         [] e.op = "ins"    -> LET x == ValBits(e.v, 8) IN
                               IF x.ok THEN Edit(st, h, Splice(b, lo, lo, x.b)) ELSE Bad(st)
         [] e.op = "ext"    -> Edit(st, h, b \o e.v.i)
         [] e.op = "zfill"  -> Edit(st, h, b \o Zeros(Max2(e.n - n, 0)))
         [] e.op = "add"    -> Mk(st, e.g, b \o st[e.o].b, TRUE)      \* a new array; the operands stay
         [] e.op = "same"   -> [st |-> st, res |-> List([j \in 1..Len(st) |-> BitsV(st[j].b)])]

Init0(sch) == [h \in 1..3 |-> [b |-> <<>>, mut |-> TRUE]]
==============================================================================
