------------------------------ MODULE StructDecl ------------------------------
(* Which declarations of structs are accepted. The operation declares the classes   *)
(* e.s (as in Struct), in which the following may be wrong:                        *)
(*   a member of a bit group may have another type m, or slices sl;                *)
(*   a positional group may say its size in bits, nb, and have members of type m;  *)
(*   padding may have a fill of another length than one, chs;                      *)
(*   a constant may come without a type, nom; a class without any fields, nof;     *)
(*   the structs to choose from may include what is no struct, class 0.            *)
(* A verdict is "ok", "no" or, where nobody says, "any".                           *)
EXTENDS Struct

Both(v, w) == IF v = "no" \/ w = "no" THEN "no" ELSE IF v = "any" \/ w = "any" THEN "any" ELSE "ok"
If(b, v) == IF b THEN v ELSE "no"
(* a size that is the same for every value *)
Fix(b) == IF b.fx THEN "ok" ELSE IF b.inf \/ b.lo # b.hi THEN "no" ELSE "any"

RECURSIVE VType(_, _)
VType(sch, m) ==
    CASE m.k \in {"num", "flt", "cnum", "ptr", "pstr", "vstr", "struct"} -> "ok"
      [] m.k = "pad"  -> If("chs" \notin DOMAIN m, "ok")
      [] m.k = "farr" -> VType(sch, m.el)
      [] m.k \in {"varr", "sarr"} -> VType(sch, m.el)
      [] m.k = "map"  -> IF \E i, j \in 1..Len(m.pairs) : i # j /\ m.pairs[i][2] = m.pairs[j][2] THEN "no"
                         ELSE LET v == VType(sch, m.m) IN
                              IF v = "no" THEN v
                              ELSE IF m.m.k \notin {"num", "flt", "cnum", "pstr", "vstr"} THEN Both("any", Fix(Bounds(sch, m.m)))
                              ELSE Both(v, Fix(Bounds(sch, m.m)))
      [] m.k = "sel"  -> If(\A j \in 1..Len(m.map) : m.map[j][2] # 0, "ok")
      [] m.k = "fsel" -> If("mm" \notin DOMAIN m \/ (IF m.mm[2] < 0 THEN TRUE ELSE m.mm[1] <= m.mm[2]), "ok")

(* the default of a field has to be a value it can have *)
VDefault(m, d) ==
    IF d.t = "none" THEN "ok"
    ELSE CASE m.k = "farr" -> If(Len(d.k) = m.n, "ok")
           [] m.k = "pstr" -> IF Len(d.i) <= m.n /\ (m.dir # 0 \/ Len(d.i) = m.n) THEN "ok"
                              ELSE IF m.dir = 0 THEN If(~m.buf, "any")
                              ELSE If(Len(Strip(d.i, m.dir, m.pad)) <= m.n, "any")
           [] OTHER -> "ok"

Members(f) == 1..Len(f.s)
RECURSIVE Foreign(_, _)
Foreign(sch, s) == IF s = <<>> THEN "ok"
                   ELSE Both(IF "m" \in DOMAIN Head(s) THEN Both("any", Fix(Bounds(sch, Head(s).m))) ELSE "ok", Foreign(sch, Tail(s)))
RECURSIVE Last(_)
Last(sls) == IF sls = <<>> THEN 0 ELSE Max2(Head(sls)[2], Last(Tail(sls)))
RECURSIVE LastOf(_)
LastOf(s) == IF s = <<>> THEN 0 ELSE Max2(Last(Head(s).sl), LastOf(Tail(s)))

RECURSIVE VField(_, _, _)
RECURSIVE VFields(_, _, _)
VField(sch, c, f) ==
    CASE f.k = "fld"   -> LET v == VType(sch, f.m) IN
                          IF v = "no" \/ ("plain" \in DOMAIN f /\ f.plain) THEN v ELSE Both(v, VDefault(f.m, Class(sch, c).lv[f.x].d))
      [] f.k \in {"opt", "anon"} -> VType(sch, f.m)
      [] f.k = "const" -> If("nom" \notin DOMAIN f, VType(sch, f.m))
      [] f.k = "bits"  ->
            LET pos == {j \in Members(f) : "sl" \in DOMAIN f.s[j]} IN
            IF pos # {} THEN If(pos = Members(f), "any")
            ELSE LET v == Foreign(sch, f.s) IN
                 IF v = "ok" THEN If(BitSum(f.s) % 8 = 0, IF f.s = <<>> THEN "any" ELSE "ok") ELSE v
      [] f.k = "pbits" ->
            IF \E j \in Members(f) : "m" \in DOMAIN f.s[j] THEN "no"
            ELSE LET z == LastOf(f.s)  n == IF f.nb < 0 THEN z ELSE f.nb IN If(z <= n /\ n % 8 = 0, "ok")
      [] f.k = "lazy"  ->
            LET v == VFields(sch, c, f.fs)
                RECURSIVE Same(_)
                Same(fs) == IF fs = <<>> THEN "ok" ELSE Both(Fix(FBounds(sch, Head(fs))), Same(Tail(fs)))
            IN IF v = "no" THEN v ELSE Both(v, Same(f.fs))
      [] f.k = "grp"   -> VFields(sch, c, f.fs)
VFields(sch, c, fs) == IF fs = <<>> THEN "ok"
                       ELSE LET v == VField(sch, c, Head(fs)) IN IF v = "no" THEN v ELSE Both(v, VFields(sch, c, Tail(fs)))
RECURSIVE VClasses(_, _)
VClasses(sch, c) == IF c > Len(sch.c) THEN "ok"
                    ELSE LET v == If("nof" \notin DOMAIN sch.c[c], VFields(sch, c, sch.c[c].fs)) IN
                         IF v = "no" THEN v ELSE Both(v, VClasses(sch, c + 1))
Verdict(s) == VClasses(s, 1)

DInit0(sch) == 0
DStep(sch, st, e) == [st |-> st, res |-> LET v == Verdict(e.s) IN IF v = "ok" THEN OK ELSE IF v = "no" THEN Err ELSE AnyV]
==============================================================================
