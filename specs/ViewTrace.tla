----------------------------- MODULE ViewTrace ------------------------------
(***************************************************************************)
(* Every line of TRACES describes some sources and everything that was      *)
(* observed on a real mount of them.  TLC compares it with Members.         *)
(*  srcs : sequence of sequences of members                                 *)
(*  tree : observed nodes                                                   *)
(*  vers : observed version folders (only when they are enabled)            *)
(*  lost : paths below existing folders that must not exist                 *)
(***************************************************************************)
EXTENDS ViewDiff, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, err
vars == <<tid, err>>

Diff(t) == IF t.fault # "" THEN <<"fault", t.fault>> ELSE ViewDifference(World(t.srcs), t)

(* One step for each trace, so that the traces are judged in parallel. *)
Init == tid \in 1..Len(Traces) /\ err = <<"undecided">>
Next ==
    /\ err = <<"undecided">>
    /\ err' = Diff(Traces[tid])
    /\ IF err' = <<>> THEN PrintT("@OK " \o ToString(tid))
       ELSE PrintT("@BAD " \o ToJson([tid |-> tid, i |-> 0, err |-> err']))
    /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
