-------------------------------- MODULE Ranges --------------------------------
(* Range lists as the code exposes them; what they mean is in Spans. *)
EXTENDS Spans

RangeV(r) == V("r", r, <<>>)
RangesV(l) == V("rs", <<>>, [j \in 1..Len(l) |-> RangeV(l[j])])
Bool(x) == IntV(IF x THEN 1 ELSE 0)
MaybeInt(n) == IF n < 0 THEN None ELSE IntV(n)

(* State: the current range list. *)
Init0(sch) == <<>>
Ret(st, v) == [st |-> st, res |-> v]
Step(sch, st, e) ==
    CASE e.op = "mk"       -> Ret(e.l, OK)
      [] e.op = "ref"      -> LET x == Resolve(e.e) IN
                              IF x.ok THEN Ret(NonEmpty(x.r), RangesV(NonEmpty(x.r))) ELSE Ret(<<>>, Err)
      [] e.op = "overlaps" -> Ret(st, Bool(HasOverlap(st)))
      [] e.op = "open"     -> Ret(st, Bool(AnyOpen(st)))
      [] e.op = "length"   -> Ret(st, IF AnyOpen(st) THEN None ELSE IntV(TotalLen(st)))
      [] e.op = "end"      -> Ret(st, IF AnyOpen(st) THEN None
                                      ELSE IF MaxStop(NonEmpty(st)) # MaxStop(st) THEN AnyV ELSE IntV(MaxStop(st)))
      [] e.op = "reach"    -> LET p == Reach(NonEmpty(st), e.n) IN
                              Ret(st, IF e.n = 0 THEN AnyV ELSE IF p < 0 THEN Err ELSE IntV(p))
      [] e.op = "sorted"   -> Ret(st, RangesV(SortSeq(st, LAMBDA a, b : Less(a, b))))
      [] e.op = "close"    -> Ret(st, IF \E j \in 1..Len(st) : st[j][1] > e.n THEN AnyV
                                      ELSE RangesV([j \in 1..Len(st) |-> IF Open(st[j]) THEN <<st[j][1], e.n>> ELSE st[j]]))
      [] e.op = "pair"     -> Ret(st, IF e.a > Len(st) \/ e.b > Len(st) THEN AnyV
                                      ELSE List(<<Bool(Meet(st[e.a], st[e.b])), Bool(st[e.a] = st[e.b]),
                                                  Bool(Less(st[e.a], st[e.b]) /\ st[e.a] # st[e.b])>>))
      [] e.op = "has"      -> Ret(st, List([j \in 1..Len(st) |-> Bool(st[j][1] <= e.n /\ e.n < Hi(st[j]))]))
      (* reading the ranges of some data; ranges beyond its end give what there is *)
      [] e.op = "get"      -> LET b == BitsOf(e.v.i) IN
                              Ret(st, IF AnyOpen(st) THEN Err
                                      ELSE V("bits", Concat([j \in 1..Len(st) |-> SubSeq(b, st[j][1] + 1, Min2(st[j][2], Len(b)))]), <<>>))
      (* writing data into the ranges of an empty output *)
      [] e.op = "put"      -> IF AnyOpen(st) THEN Ret(st, Err)
                              ELSE IF TotalLen(st) > Len(e.v.i) \/ HasOverlap(st) \/ (\E j \in 1..Len(st) : Empty(st[j])) THEN Ret(st, AnyV)
                              ELSE LET ofs(j) == TotalLen(SubSeq(st, 1, j - 1))
                                       at(p) == IF \E j \in 1..Len(st) : st[j][1] < p /\ p <= st[j][2]
                                                THEN LET j == CHOOSE j \in 1..Len(st) : st[j][1] < p /\ p <= st[j][2]
                                                     IN e.v.i[ofs(j) + p - st[j][1]]
                                                ELSE 0
                                   IN Ret(st, V("bits", [p \in 1..MaxStop(st) |-> at(p)], <<>>))
==============================================================================
