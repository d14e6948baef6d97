------------------------------- MODULE Adapter -------------------------------
(* A buffer class adapted for use in structs: a stream type of the class, also *)
(* as the type of struct fields and of array elements.                         *)
(* A subject is that of Buffer. State: that of Buffer, the bytes ahead in an   *)
(* input stream (or any) and those written to an output stream (or any).       *)
EXTENDS Buffer

AInit(sch) == [b |-> Init0(sch), in |-> Bytes(<<>>), out |-> Bytes(<<>>)]
Room(S, c) == CeilDiv(StaticSize(S, c), 8)       \* bytes of a class of static size
Fixed(S, c) == StaticSize(S, c) >= 0
Sure(S, c) == ~BadClass(S, c) /\ ~BadOverlap(S, c)
Chars(bits) == Bytes(BytesOf(bits))
Whole(n) == IntV(CeilDiv(n, 8))

(* an object made of bytes: its value, an error, or left open *)
Made(S, c, b) == IF BadClass(S, c) THEN ErrR ELSE Bind(UnpackObj(S, c, BitsOf(b), NestedX), LAMBDA r : Ok(Obj(c, r.v)))
(* reading from bytes ahead; n: how many bytes that takes, -1 when this is left open *)
Taken(S, c, ahead) ==
    IF BadClass(S, c) \/ (Sure(S, c) /\ ~Fixed(S, c)) THEN [r |-> ErrR, n |-> 0]
    ELSE IF ~Sure(S, c) THEN [r |-> UnR, n |-> 0-1]
    ELSE IF Len(ahead) < Room(S, c) THEN [r |-> ErrR, n |-> 0-1]
    ELSE [r |-> Made(S, c, SubSeq(ahead, 1, Room(S, c))), n |-> Room(S, c)]

(* Structs having this type among their fields: a number, the objects, a larger number (the first one counts the objects of "cnt") *)
Head1(e) == IF e.s = "cnt" THEN <<Len(e.os)>> ELSE <<e.u>>
W2(w) == <<w \div 256, w % 256>>
RECURSIVE PackAll(_, _, _)
PackAll(S, os, acc) == IF os = <<>> THEN Ok(acc)
                       ELSE Both(IF Head(os).t = "obj" THEN PackObj(S, Head(os), NestedX) ELSE ErrR, PackAll(S, Tail(os), acc),
                                 LAMBDA w, rest : Ok(<<w.b>> \o rest))
RECURSIVE TakeAll(_, _, _, _, _)
TakeAll(S, c, n, ahead, out) ==
    IF n = 0 THEN Ok([os |-> out, b |-> ahead])
    ELSE LET t == Taken(S, c, ahead) IN
         Bind(t.r, LAMBDA o : TakeAll(S, c, n - 1, SubSeq(ahead, t.n + 1, Len(ahead)), Append(out, o)))
SRead(S, e) ==
    IF ~Sure(S, e.c) THEN (IF BadClass(S, e.c) THEN ErrR ELSE UnR)
    ELSE IF Len(e.b) < 1 THEN ErrR
    ELSE LET n == IF e.s = "one" THEN 1 ELSE IF e.s = "two" THEN 2 ELSE e.b[1] IN
         Bind(TakeAll(S, e.c, n, Tail(e.b), <<>>), LAMBDA t :
              IF Len(t.b) < 2 THEN ErrR
              ELSE Ok(List(<<IF e.s = "cnt" THEN None ELSE IntV(e.b[1]), List(t.os), IntV(256 * t.b[1] + t.b[2])>>)))

AStep(sch, st, e) ==
    LET S == sch.c
        Keep(res) == [st |-> st, res |-> res]
        obj(o) == st.b.o[o]
        pk(o) == IF obj(o).t = "none" THEN ErrR
                 ELSE IF obj(o).t = "maybe" THEN (IF SureOverlap(S, obj(o).i[1], TRUE) THEN ErrR ELSE UnR)
                 ELSE PackObj(S, obj(o), st.b.x[o])
        (* packing may leave computed fields set *)
        after(o) == IF obj(o).t # "obj" THEN obj(o) ELSE LET r == pk(o) IN IF r.t = "val" THEN r.v.v ELSE Loosen(S, obj(o))
        Packed(o, res) == [st |-> [st EXCEPT !.b.o[o] = after(o)], res |-> res]
        place(o, r) == [st.b EXCEPT !.o[o] = IF r.t = "val" THEN r.v ELSE IF r.t = "un" THEN MaybeObj(e.c) ELSE NoObj, !.x[o] = NestedX]
    IN
    CASE e.op \in {"new", "csize", "get", "all", "set", "setx", "mut", "pack", "unpack", "size"} ->
            LET r == Step(sch, st.b, e) IN [st |-> [st EXCEPT !.b = r.st], res |-> r.res]
      [] e.op = "load" -> [st |-> [st EXCEPT !.in = Bytes(e.b)], res |-> OK]
      [] e.op = "left" -> Keep(st.in)
      [] e.op = "astr"  -> Packed(e.o, ResV(pk(e.o), LAMBDA w : Chars(w.b)))
      [] e.op = "asize" -> Packed(e.o, ResV(pk(e.o), LAMBDA w : Whole(Len(w.b))))
      [] e.op = "awrite" ->
            LET r == pk(e.o)
                out == IF r.t = "val" /\ st.out.t = "bytes" THEN Bytes(st.out.i \o BytesOf(r.v.b)) ELSE AnyV
            IN [st |-> [st EXCEPT !.b.o[e.o] = after(e.o), !.out = out], res |-> ResV(r, LAMBDA w : OK)]
      [] e.op = "out" -> [st |-> [st EXCEPT !.out = Bytes(<<>>)], res |-> st.out]
      [] e.op = "afrom" ->      \* from a whole string, whatever the class
            LET r == Made(S, e.c, e.b) IN
            [st |-> [st EXCEPT !.b = place(e.o, r)],
             res |-> ResV(r, LAMBDA o : List(o.k))]
      [] e.op = "aread" ->      \* from the stream
            IF st.in.t # "bytes" THEN [st |-> [st EXCEPT !.b = place(e.o, UnR)], res |-> AnyV]
            ELSE LET t == Taken(S, e.c, st.in.i) IN
                 [st |-> [st EXCEPT !.b = place(e.o, t.r), !.in = IF t.n < 0 THEN AnyV ELSE Bytes(SubSeq(@.i, t.n + 1, Len(@.i)))],
                  res |-> ResV(t.r, LAMBDA o : List(o.k))]
      [] e.op = "swrite" ->
            LET ws == PackAll(S, [j \in 1..Len(e.os) |-> obj(e.os[j])], <<>>)
                RECURSIVE Af(_, _)
                Af(b, os) == IF os = <<>> THEN b
                             ELSE Af([b EXCEPT !.o[Head(os)] = IF ws.t = "val" \/ obj(Head(os)).t # "obj" THEN after(Head(os)) ELSE Loosen(S, obj(Head(os)))], Tail(os))
                open == \E j \in 1..Len(e.os) : obj(e.os[j]).t = "maybe" \/ (obj(e.os[j]).t = "obj" /\ st.b.x[e.os[j]] # NestedX)
            IN [st |-> [st EXCEPT !.b = Af(@, e.os)],
                res |-> IF BadClass(S, e.c) THEN Err ELSE IF open \/ ~Sure(S, e.c) THEN AnyV ELSE ResV(ws, LAMBDA w : List(<<Bytes(Head1(e) \o BytesOf(Concat(w)) \o W2(e.w)), IntV(3 + Len(BytesOf(Concat(w))))>>))]
      [] e.op = "sread" -> Keep(ResV(SRead(S, e), LAMBDA v : v))
==============================================================================
