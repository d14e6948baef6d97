---------------------------- MODULE BitStreamTrace ----------------------------
(* Validates recorded histories of the implementation against BitStream. *)
EXTENDS BitStream, Json, IOUtils
VARIABLES tid, i, st
T == JsonDeserialize(IOEnv.TRACES).traces
Init == /\ tid \in 1..Len(T) /\ i = 1 /\ st = Init0(T[tid].sch)
Next ==
    /\ i <= Len(T[tid].ev)
    /\ LET e == T[tid].ev[i]
           r == Step(T[tid].sch, st, e) IN
       IF Match(r.res, e.res) THEN st' = r.st /\ i' = i + 1 /\ tid' = tid
       ELSE PrintT("@@REJECT " \o ToJson([tid |-> tid, i |-> i, want |-> r.res])) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, st>>
==============================================================================
