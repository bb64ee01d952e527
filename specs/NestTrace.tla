------------------------------ MODULE NestTrace -----------------------------
(* Like ViewTrace, for a single source with archives inside: depth, how and members as in Nested. *)
EXTENDS Nested, ViewDiff, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, err
vars == <<tid, err>>

Diff(t) == IF t.fault # "" THEN <<"fault", t.fault>> ELSE ViewDifference(NestedWorld(t.ms, t.depth, t.how), t)

(* One step for each trace, so that the traces are judged in parallel. *)
Init == tid \in 1..Len(Traces) /\ err = <<"undecided">>
Next ==
    /\ err = <<"undecided">>
    /\ err' = Diff(Traces[tid])
    /\ IF err' = <<>> THEN PrintT("@OK " \o ToString(tid))
       ELSE PrintT("@BAD " \o ToJson([tid |-> tid, i |-> 0, err |-> err']))
    /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
