----------------------------- MODULE IndexTrace -----------------------------
(***************************************************************************)
(* Histories of one archive and its index file as in IndexLife, with what   *)
(* the real mounts showed.  Events                                          *)
(*   set   : the archive is (re)written: ms, size, mtime; app: it begins    *)
(*           with what it held before and the format lets one see that      *)
(*   crash : a mount ended somewhere                                        *)
(*   mount : verify, clear, and what was observed                           *)
(*   try   : a mount that may fail because it could not write               *)
(***************************************************************************)
EXTENDS Nested, ViewDiff, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
(* Most histories share archives and what mounts showed. *)
Shared == ndJsonDeserialize(IOEnv.SHARED)
VARIABLES tid, err
vars == <<tid, err>>

(* what earlier mounts may have left an index of: numbers of set events *)
Excused(t, st, e) ==
    {c \in st.left :
        LET was == t.events[c]
            now == t.events[st.cur]
        IN /\ was.id # now.id /\ was.size = now.size
           /\ (e.verify => was.mtime = now.mtime)
           /\ ~e.clear /\ c \notin st.begins}

Step(t, st, k) ==
    LET e == t.events[k] IN
    IF st.err # <<>> THEN st
    ELSE IF e.k = "set"
    THEN [st EXCEPT !.cur = k, !.begins = IF e.app THEN @ \cup {st.cur} ELSE {}]
    ELSE IF e.k = "crash" \/ (e.k = "try" /\ e.fault # "")
    THEN [st EXCEPT !.left = @ \cup {st.cur}]
    ELSE IF Excused(t, st, e) # {} THEN [st EXCEPT !.left = @ \cup {st.cur}, !.unsure = @ + 1]
    ELSE LET now == t.events[st.cur]
             d == IF e.fault # "" THEN <<"fault", e.fault>>
                  ELSE ViewDifference(NestedWorld(Shared[now.ms], t.depth, t.how), Shared[e.view])
         IN [st EXCEPT !.err = IF d = <<>> THEN <<>> ELSE <<k>> \o d, !.left = {st.cur}, !.sure = @ + 1]

Result(t) == FoldLeft(LAMBDA st, k : Step(t, st, k),
                      [cur |-> 0, left |-> {}, begins |-> {}, err |-> <<>>, sure |-> 0, unsure |-> 0],
                      [k \in 1..Len(t.events) |-> k])

(* One step for each trace, so that the traces are judged in parallel. *)
Init == tid \in 1..Len(Traces) /\ err = <<"undecided">>
Next ==
    /\ err = <<"undecided">>
    /\ LET r == Result(Traces[tid])
       IN /\ err' = r.err
          /\ PrintT("@N " \o ToJson([sure |-> r.sure, unsure |-> r.unsure]))
          /\ IF r.err = <<>> THEN PrintT("@OK " \o ToString(tid))
             ELSE PrintT("@BAD " \o ToJson([tid |-> tid, i |-> 0, err |-> r.err]))
    /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
